#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, missing = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if not os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        missing.append(i)
        continue
    m = importlib.import_module('checks.' + i.lower())
    checks.append({
        'property': i,
        'quick_cmd': 'python3 checks/run.py %s quick' % i,
        'thorough_cmd': 'python3 checks/run.py %s thorough' % i,
        'technique': m.TECHNIQUE,
        'level': m.LEVEL,
        'level_note': m.NOTE,
    })
d = {'version': 1, 'setup_cmd': 'python3 vlib/build.py rel', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': 'check not built yet'} for i in missing]}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
print(len(checks), 'checks; missing:', missing)
