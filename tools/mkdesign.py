#!/usr/bin/env python3
"""Assemble DESIGN.md from the hand-written texts below, the properties, the
specifications of the checks, the findings and the planted bugs."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import specs                                            # noqa: E402
import design_text as T                                 # noqa: E402

ROOT = os.path.dirname(HERE)


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    finds = json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
    seeds = {}
    sdir = os.path.join(ROOT, 'seeded')
    for sid in sorted(os.listdir(sdir) if os.path.isdir(sdir) else []):
        m = json.load(open(os.path.join(sdir, sid, 'meta.json')))
        m['id'] = sid
        seeds.setdefault(m['property'], []).append(m)
    out = [T.INTRO.strip(), '', '## Properties', '']
    for p in props:
        pid = p['id']
        out += ['### %s — %s' % (pid, p['title']), '', p['statement'], '']
        s = specs.SPECS.get(pid)
        if not s:
            out += ['Not claimed: %s' % specs.NA.get(pid, ''), '']
            continue
        runs = []
        for r in s['runs']:
            r = specs.norm(r)
            runs.append('`%s`%s (%s)' % (r['harness'],
                        ' [%s]' % r['scenario'] if r.get('scenario') else '',
                        r['variant']))
        out += ['- *Harness*: ' + ', '.join(runs),
                '- *Workload*: ' + s['rule'],
                '- *Oracle*: ' + s['technique'],
                '- *Strength*: ' + s['note']]
        t = T.PROP.get(pid, {})
        if t.get('design'):
            out.append('- *Design*: ' + ' '.join(t['design'].split()))
        if t.get('limits'):
            out.append('- *Not judged*: ' + ' '.join(t['limits'].split()))
        if t.get('alarms'):
            out.append('- *False alarms corrected*: ' + ' '.join(t['alarms'].split()))
        f = [x for x in finds if x['property'] == pid]
        if f:
            out.append('- *Defects found and repaired* (%d):' % len(f))
            for x in f:
                w = x['what'].split(' ', 3)
                out.append('  - %s (%s)' % (w[3] if len(w) > 3 else x['what'], x['commit'][:10]))
        for m in seeds.get(pid, []):
            out.append('- *Planted bug* `%s`: %s; needs %s. Caught: %s.'
                       % (m['id'], m['what_it_breaks'], m['needs'],
                          m.get('caught', 'by the quick check of %s' % pid)))
        if t.get('mutants'):
            out.append('- *Other mutants tried and caught*: ' + ' '.join(t['mutants'].split()))
        out.append('')
    out += [T.OUTRO.strip(), '']
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
