#!/usr/bin/env python3
"""Compare a result file of /opt/vp/test.sh with the stable list."""
import json
import sys
b = json.load(open('/opt/vp/BASELINE.json'))
t = json.load(open(sys.argv[1]))
miss = sorted(set(b['stable']) - set(t['passed']))
print('%d stable tests, %d not passing' % (len(b['stable']), len(miss)))
for m in miss:
    print('  ', m)
sys.exit(1 if miss else 0)
