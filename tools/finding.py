#!/usr/bin/env python3
"""finding.py fixed PID KEY COMMIT TEXT | known PID KEY TEXT: record one."""
import json
import os
import sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'known_findings.json')
d = json.load(open(P))
a = sys.argv[1:]
if a[0] == 'fixed':
    _, pid, key, com, txt = a
    d['findings'].append(dict(property=pid, key=key, status='fixed',
                              commit=com, what='fixed: property=%s %s %s'
                              % (pid, com, txt)))
else:
    _, pid, key, txt = a
    d['findings'].append(dict(property=pid, key=key, status='known',
                              what=txt))
json.dump(d, open(P, 'w'), indent=1)
