#!/usr/bin/env python3
"""Writes MANIFEST.json from the check functions that exist in lib/."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
meta = json.load(open(os.path.join(V, 'tools', 'checks.json')))
have = set()
for f in os.listdir(os.path.join(V, 'lib')):
    if f.startswith('props_'):
        have |= set(re.findall(r'^def check_(\w+)\(', open(os.path.join(V, 'lib', f)).read(), re.M))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i in meta['checks']:
        d = meta['checks'][i]
        checks.append({'property': i, 'quick_cmd': 'python3 lib/check.py %s quick' % i, 'thorough_cmd': 'python3 lib/check.py %s thorough' % i,
                       'technique': d['technique'], 'level': 'other', 'level_note': d['note']})
    else:
        na.append({'property': i, 'reason': meta['na'].get(i, 'No check is registered for it yet.')})
m = {'version': 1, 'setup_cmd': 'python3 lib/extract.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: /repo is parsed with clang, never run. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks;', len(na), 'not claimed:', ' '.join(x['property'] for x in na))
