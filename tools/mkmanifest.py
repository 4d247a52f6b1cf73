#!/usr/bin/env python3
"""Regenerates MANIFEST.json from specs.py and properties.jsonl."""
import json
import os
import subprocess
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs  # noqa: E402
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    s = specs.SPECS.get(p)
    if not s:
        continue
    checks.append({
        'property': p,
        'quick_cmd': 'python3 tools/check.py %s quick' % p,
        'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': s['technique'], 'level': s['level'],
        'level_note': s['note'],
    })
hooks = [l.split()[0] for l in subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--format=%H %s'], text=True).splitlines()
    if l.split(' ', 1)[1].startswith('hooks:')]
doc = {
    'version': 1,
    'setup_cmd': 'python3 tools/vbuild.py selftest:asan',
    'hooks': {'guard': 'VERIF_HOOKS',
              'enable': 'tools/vbuild.py compiles every source with '
                        '-DVERIF_HOOKS=1',
              'source_commits': hooks},
    'checks': checks,
    'not_applicable': [
        {'property': p, 'reason': specs.NA.get(p, 'not built yet')}
        for p in props if p not in specs.SPECS],
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fp:
    json.dump(doc, fp, indent=1)
    fp.write('\n')
print('%d checks, %d not claimed' % (len(checks),
                                     len(doc['not_applicable'])))
