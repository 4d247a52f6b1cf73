#!/usr/bin/env python3
"""Writes vcons.iop (types with random constraints) and ../vcons_rules.h (the
same constraints as a table, for the oracle).  Deterministic; the outputs are
committed."""
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
BITS = {'byte': (1, 8), 'ubyte': (0, 8), 'short': (1, 16), 'ushort': (0, 16),
        'int': (1, 32), 'uint': (0, 32), 'long': (1, 64), 'ulong': (0, 64)}
SETS = [('[a-z]*', 'abcdefghijklmnopqrstuvwxyz'),
        ('[abc]*', 'abc'),
        ('[0-9_]*', '0123456789_'),
        ('[a-zA-Z0-9_\\-]*', ''.join(chr(c) for c in range(128)
                                     if chr(c).isalnum()) + '_-'),
        ('[^\\[\\]]*', '^[]'),
        ('[^ x]*', '^ x')]


def rng(t):
    s, b = BITS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def main():
    r = random.Random(4242)
    out = ['package vcons;', '', 'enum Loose {',
           '    A = 1, B = 2, C = 5, D = -3,', '};', '', '@strict',
           'enum Tight {', '    P = 1, Q = 4, R = 9, S = 100,', '};', '']
    rules = []
    loose = dict(A=1, B=2, C=5, D=-3)
    tight = dict(P=1, Q=4, R=9, S=100)

    def field(st, i, aggs, union=False, nested=None):
        t = r.choice(list(BITS) + ['double', 'string', 'string', 'bytes',
                                   'xml', 'Loose', 'Tight', 'agg', 'agg'])
        name = 'f%d' % i
        attrs = []
        R = dict(st=st, f=name)
        rep = '' if union else r.choice(['', '', '?', '[]', '[]', '='])
        if t == 'agg':
            t, members = r.choice(aggs)
            if rep == '=':
                rep = '?'
            if members and r.random() < .6:
                sub = r.sample(sorted(members), r.randint(1, 2))
                which = r.choice(['allow', 'disallow'])
                attrs += ['@%s(%s)' % (which, m) for m in sub]
                ok = [members[m] for m in members
                      if (m in sub) == (which == 'allow')]
                R['vals'] = ok
        elif t in BITS:
            lo, hi = rng(t)
            if r.random() < .6:
                mn = r.choice([lo + 1, -5 if lo < 0 else 3, 0, 10,
                               r.randint(lo, hi) // 2])
                mn = max(mn, lo)
                attrs.append('@min(%s)' % expr(mn))
                R['min'] = mn
            if r.random() < .6:
                base = R.get('min', lo)
                mx = r.choice([hi - 1, base, base + 7,
                               r.randint(base, hi)])
                mx = min(mx, hi)
                attrs.append('@max(%s)' % expr(mx))
                R['max'] = mx
            if r.random() < .25:
                attrs.append('@nonZero')
                R['nonzero'] = 1
        elif t == 'double':
            if r.random() < .5:
                R['dmin'] = r.choice([-1.5, 0.25, 1.53, -1e10])
                attrs.append('@min(%r)' % R['dmin'])
            if r.random() < .5:
                R['dmax'] = r.choice([2.5, 1.5e12, 100.0])
                attrs.append('@max(%r)' % R['dmax'])
            if r.random() < .3:
                attrs.append('@nonZero')
                R['nonzero'] = 1
        elif t in ('string', 'bytes', 'xml'):
            if t == 'xml' or r.random() < .2:
                if r.random() < .7:
                    attrs.append('@nonEmpty')
                    R['minlen'] = 1
            elif r.random() < .3:
                n = r.randint(1, 6)
                attrs.append('@length(%d)' % n)
                R['minlen'] = R['maxlen'] = n
            else:
                if r.random() < .6:
                    R['minlen'] = r.randint(1, 5)
                    attrs.append('@minLength(%d)' % R['minlen'])
                if r.random() < .6:
                    R['maxlen'] = R.get('minlen', 0) + r.randint(1, 6)
                    attrs.append('@maxLength(%d)' % R['maxlen'])
            if t == 'string' and r.random() < .5:
                pat, cs = r.choice(SETS)
                attrs.append('@pattern("%s")' % pat)
                R['cset'] = cs
        elif t in ('Loose', 'Tight'):
            vals = loose if t == 'Loose' else tight
            if t == 'Tight':
                R['vals'] = list(vals.values())
            if r.random() < .6:
                sub = r.sample(sorted(vals), r.randint(1, 3))
                which = r.choice(['allow', 'disallow'])
                attrs += ['@%s(%s)' % (which, m) for m in sub]
                if which == 'allow':
                    R['vals'] = [vals[m] for m in sub]
                elif t == 'Tight':
                    R['vals'] = [vals[m] for m in vals if m not in sub]
                else:
                    R['notvals'] = [vals[m] for m in sub]
        if rep == '[]':
            if r.random() < .5:
                R['minocc'] = r.randint(1, 3)
                attrs.append('@minOccurs(%d)' % R['minocc'])
            if r.random() < .5:
                R['maxocc'] = R.get('minocc', 0) + r.randint(1, 3)
                attrs.append('@maxOccurs(%d)' % R['maxocc'])
        dv = ''
        if rep == '=':
            rep = ''
            if t in BITS:
                v = R.get('min', R.get('max', 1))
                if v == 0 and 'nonzero' in R:
                    v = 1 if R.get('max', 1) >= 1 else -1
                dv = ' = %s' % expr(v)
            elif t == 'Loose' or t == 'Tight':
                vals = loose if t == 'Loose' else tight
                ok = [n for n in vals
                      if vals[n] in R.get('vals', list(vals.values()))
                      and vals[n] not in R.get('notvals', [])]
                dv = ' = %s_%s' % (t.upper(), ok[0]) if ok else ''
        if (rep in ('?', '[]') or dv) and r.random() < .15 \
                and 'minocc' not in R:
            attrs.append('@private')
            R['priv'] = 1
        if len(R) > 2:
            rules.append(R)
        head = ('    ' + ' '.join(attrs) + '\n') if attrs else ''
        return '%s    %s%s %s%s;' % (head, t, rep, name, dv)

    def expr(v):
        if v < 0:
            return '0 - %d' % -v if v > -(1 << 63) else '0 - 1 - %d' % (
                (1 << 63) - 1)
        return str(v)

    aggs = [('Leaf', None)]
    out += ['struct Leaf {', '    @min(2) @max(5)', '    int f0;',
            '    @maxLength(2)', '    string? f1;', '};', '']
    rules.append(dict(st='Leaf', f='f0', min=2, max=5))
    rules.append(dict(st='Leaf', f='f1', maxlen=2))
    for k in range(36):
        if k % 6 == 2:
            st = 'U%d' % k
            out.append('union %s {' % st)
            n = r.randint(3, 6)
            for i in range(n):
                out.append(field(st, i, aggs, union=True))
            aggs.append((st, {'f%d' % i: i + 1 for i in range(n)}))
        elif k % 6 == 4:
            st = 'K%d' % k
            parent = ''
            if k > 4:
                parent = ' : %d : K%d' % (k, k - 6 if r.random() < .7 else 4)
            out.append('class %s%s {' % (st, parent))
            for i in range(r.randint(1, 4)):
                out.append(field(st, k * 10 + i, aggs))
            aggs.append((st, None))
        else:
            st = 'S%d' % k
            out.append('struct %s {' % st)
            for i in range(r.randint(2, 9)):
                out.append(field(st, i, aggs))
            aggs.append((st, None))
            if r.random() < .3:
                out.append('    %s? rec;' % st)
        out += ['};', '']
    # references to unions
    for k, which in ((0, 'allow'), (1, 'disallow')):
        name, mem = [a for a in aggs if a[1]][k]
        sub = sorted(mem)[:2]
        out += ['struct Ref%d {' % k,
                '    ' + ' '.join('@%s(%s)' % (which, m) for m in sub),
                '    %s& f0;' % name, '    Leaf& f1;',
                '    ' + ' '.join('@%s(%s)' % (which, m) for m in sub),
                '    %s? f2;' % name, '};', '']
        ok = [mem[m] for m in sorted(mem) if (m in sub) == (which == 'allow')]
        for f in ('f0', 'f2'):
            rules.append(dict(st='Ref%d' % k, f=f, vals=ok))
    with open(os.path.join(HERE, 'vcons.iop'), 'w') as f:
        f.write('\n'.join(out))

    def ci(v):
        # as (unsigned) 64-bit pattern and sign
        return '(__int128)%s' % (('-(__int128)%dULL' % -v) if v < 0
                                 else '%dULL' % v)

    h = ['/* generated by iop/gen_vcons.py */',
         'static vc_rule_t const vc_rules_g[] = {']
    for R in rules:
        s = '    { .st = "vcons.%s", .f = "%s"' % (R['st'], R['f'])
        if 'min' in R:
            s += ', .has_min = true, .min = %s' % ci(R['min'])
        if 'max' in R:
            s += ', .has_max = true, .max = %s' % ci(R['max'])
        if 'dmin' in R:
            s += ', .has_dmin = true, .dmin = %r' % R['dmin']
        if 'dmax' in R:
            s += ', .has_dmax = true, .dmax = %r' % R['dmax']
        if 'nonzero' in R:
            s += ', .nonzero = true'
        for n in ('minlen', 'maxlen', 'minocc', 'maxocc'):
            if n in R:
                s += ', .%s = %d' % (n, R[n])
        if 'cset' in R:
            s += ', .cset = "%s"' % R['cset']
        if 'vals' in R:
            s += ', .nvals = %d, .vals = { %s }' % (
                len(R['vals']), ', '.join(map(str, R['vals'])) or '0')
            s += ', .has_vals = true'
        if 'notvals' in R:
            s += ', .nnot = %d, .notvals = { %s }' % (
                len(R['notvals']), ', '.join(map(str, R['notvals'])))
        if 'priv' in R:
            s += ', .priv = true'
        h.append(s + ' },')
    h += ['};', '']
    with open(os.path.join(HERE, '..', 'vcons_rules.h'), 'w') as f:
        f.write('\n'.join(h))


main()
