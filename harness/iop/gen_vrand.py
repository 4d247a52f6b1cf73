#!/usr/bin/env python3
"""Writes vrand.iop (random types), vev_old.iop and vev_new.iop (a random
type set and an evolution of it).  Deterministic; the outputs are committed."""
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
SCALARS = ['byte', 'ubyte', 'short', 'ushort', 'int', 'uint', 'long', 'ulong',
           'bool', 'double', 'string', 'bytes', 'xml']
RANGES = {'byte': (-128, 127), 'ubyte': (0, 255), 'short': (-32768, 32767),
          'ushort': (0, 65535), 'int': (-2**31, 2**31 - 1),
          'uint': (0, 2**32 - 1), 'long': (-2**62, 2**62),
          'ulong': (0, 2**63)}


def defval(r, t, enums):
    if t in RANGES:
        lo, hi = RANGES[t]
        return str(r.choice([r.randint(lo, hi), r.randint(0, 100), 0, hi,
                             lo if lo == 0 else lo + 1]))
    if t == 'bool':
        return r.choice(['true', 'false'])
    if t == 'double':
        return r.choice(['0.5', '3.25', '-1.5e10', '42.0'])
    if t in ('string', 'bytes'):
        return '"%s"' % r.choice(['', 'x', 'default', 'a b c'])
    if t == 'xml':
        return r.choice(['"<a/>"', '"<b/>"'])
    return '%s_%s' % (upper(t), r.choice(enums[t]))


def upper(s):
    out = ''
    for i, c in enumerate(s):
        if c.isupper() and i:
            out += '_'
        out += c.upper()
    return out


def field(r, name, structs, unions, classes, enums, in_union=False,
          force_soft=False, selfname=None):
    """text of one field"""
    while True:
        k = r.random()
        if k < 0.60 or not structs:
            t = r.choice(SCALARS)
            kind = 's'
        elif k < 0.68:
            t = r.choice(list(enums))
            kind = 's'
        elif k < 0.82:
            t = r.choice(structs)
            kind = 'a'
        elif k < 0.90 and unions:
            t = r.choice(unions)
            kind = 'a'
        elif k < 0.97 and classes:
            t = r.choice(classes)
            kind = 'c'
        else:
            t = 'void'
            kind = 'v'
        break
    if in_union:
        if kind == 'a' and r.random() < 0.3:
            return '%s& %s' % (t, name)
        return '%s %s' % (t, name)
    if kind == 'v':
        return 'void? %s' % name
    reps = ['', '?', '[]', '=']
    if force_soft:
        reps = ['?', '[]', '=']
    if kind == 'a':
        reps = ['', '?', '[]', '&'] if not force_soft else ['?', '[]']
    if kind == 'c':
        reps = ['', '?', '[]'] if not force_soft else ['?', '[]']
    rep = r.choice(reps)
    if rep == '=':
        return '%s %s = %s' % (t, name, defval(r, t, enums))
    return '%s%s %s' % (t, rep, name)


def tags(r, n):
    """increasing or shuffled tags, with gaps around the wire boundaries"""
    pool = list(range(1, 45)) + [254, 255, 256, 257, 300, 1000, 0x7ffe]
    t = r.sample(pool, n)
    if r.random() < 0.6:
        t.sort()
    return t


def gen(seed, pkg, nst, nun, ncl, opt_tags=True):
    r = random.Random(seed)
    enums, structs, unions, classes = {}, [], [], []
    decls = []
    for i in range(4):
        n = '%sEn%s' % (pkg.title().replace('_', ''), 'ABCD'[i])
        vals = ['V%d' % j for j in range(r.randint(1, 8))]
        nums = r.sample([0, 1, 2, 3, 4, 5, 100, 127, 128, 255, 256, 65536,
                         2**31 - 1, -1, -2, -129], len(vals))
        enums[n] = vals
        decls.append(['enum', n, [('%s = %d' % (v, x)) for v, x in
                                  zip(vals, nums)]])
    order = (['s'] * nst + ['u'] * nun + ['c'] * ncl)
    r.shuffle(order)
    order = ['s', 's', 'u', 'c'] + order
    cid = 0
    roots = []
    for i, k in enumerate(order):
        if k == 's':
            n = 'St%d' % i
            nf = r.choice([0, 1, 2, 3, 5, 8, 12, 20])
            tg = tags(r, nf)
            fs = [(t, field(r, 'f%d' % t, structs, unions, classes, enums))
                  for t in tg]
            if r.random() < 0.2:
                fs.append((32767 if fs else 1,
                           r.choice(['%s? rec', '%s[] rec']) % n))
            structs.append(n)
            decls.append(['struct', n, fs])
        elif k == 'u':
            n = 'Un%d' % i
            nf = r.choice([1, 2, 3, 6, 10])
            tg = tags(r, nf)
            fs = [(t, field(r, 'g%d' % t, structs, unions, classes, enums,
                            in_union=True)) for t in tg]
            unions.append(n)
            decls.append(['union', n, fs])
        else:
            n = 'Cl%d' % i
            par = r.choice(roots) if roots and r.random() < 0.75 else None
            nf = r.choice([0, 1, 2, 4, 8])
            tg = tags(r, nf)
            fs = [(t, field(r, 'h%d_%d' % (i, t), structs, unions, classes,
                            enums)) for t in tg]
            if par:
                cid += 1
                hdr = 'class %s : %d : %s' % (n, cid, par)
            else:
                hdr = 'class %s' % n
            if not par and r.random() < 0.3:
                hdr = 'abstract ' + hdr
            roots.append(n)
            classes.append(n)
            decls.append([hdr, n, fs])
    return decls, enums, structs, unions, classes


def dump(pkg, decls):
    out = ['package %s;' % pkg, '']
    for d in decls:
        if d[0] == 'enum':
            out.append('enum %s {' % d[1])
            out += ['    %s,' % x for x in d[2]]
            out += ['};', '']
            continue
        hdr = d[0] if 'class' in d[0] else '%s %s' % (d[0], d[1])
        out.append('%s {' % hdr)
        for t, f in d[2]:
            f = f.replace('h%s' % 'x', 'hx')
            out.append('%d: %s;' % (t, camel(f)))
        out += ['};', '']
    return '\n'.join(out)


def camel(f):
    # field names: f12, g12, h3_12 -> h3x12
    head, _, tail = f.partition(' ')
    return head + ' ' + tail.replace('_', 'x', 1) if tail.startswith('h') \
        else f


def evolve(decls, enums, structs, unions, classes, seed):
    """A newer version: optional/repeated/defaulted fields appear at random
    places with fresh tags, and some such fields disappear; union members
    appear."""
    r = random.Random(seed)
    new = []
    for d in decls:
        if d[0] == 'enum':
            new.append([d[0], d[1], d[2] + ['NEWVAL = 7777']])
            continue
        fs = list(d[2])
        used = set(t for t, _ in fs)
        if d[0] == 'union':
            for _ in range(r.randint(0, 3)):
                t = r.choice([x for x in range(1, 600) if x not in used])
                used.add(t)
                fs.append((t, field(r, 'n%d' % t, [], [], [], enums,
                                    in_union=True)))
        else:
            keep = []
            for t, f in fs:
                soft = f.split(' ')[0][-1] in '?]' or '=' in f
                if soft and r.random() < 0.2 and 'rec' not in f:
                    continue
                keep.append((t, f))
            fs = keep
            i = structs.index(d[1]) if d[1] in structs else 0
            for _ in range(r.randint(0, 4)):
                t = r.choice([x for x in list(range(1, 60)) + [253, 258, 999,
                              30000] if x not in used])
                used.add(t)
                fs.insert(r.randint(0, len(fs)),
                          (t, field(r, 'n%d' % t, structs[:i], [], [], enums,
                                    force_soft=True)))
        new.append([d[0], d[1], fs])
    return new


def main():
    w = lambda n, s: open(os.path.join(HERE, n), 'w').write(s)
    decls, *_ = gen(20, 'vrand', 34, 12, 18)
    w('vrand.iop', dump('vrand', decls))
    decls, enums, st, un, cl = gen(7, 'vev', 24, 8, 10)
    w('vev_old.iop', dump('vev_old', decls))
    w('vev_new.iop', dump('vev_new', evolve(decls, enums, st, un, cl, 99)))


main()
