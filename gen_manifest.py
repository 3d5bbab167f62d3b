#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and engine/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(ROOT, 'engine'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl')) if l.strip()]
checks = []; na = []
for i in ids:
    p = props.PROPS.get(i, {})
    if p.get('na') or not p.get('claimed'):
        na.append(dict(property=i, reason=p.get('na') or 'not claimed yet: its contracts are still being written')); continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py --property %s' % i, thorough_cmd='python3-vt check.py --property %s --tier thorough' % i,
                       technique=props.TECH, level='proof', level_note=p['note']))
json.dump(dict(version=1, setup_cmd='python3 engine/build.py', checks=checks, not_applicable=na), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
