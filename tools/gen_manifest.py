#!/usr/bin/env python3
"""MANIFEST.json from checks/registry.py and properties.jsonl"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + '/engine', HERE + '/checks']
from registry import REGISTRY, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl') if l.strip()]
checks = []
for p in ids:
    if p in REGISTRY:
        e = REGISTRY[p]
        checks.append({'property': p, 'quick_cmd': 'python3 run.py %s' % p, 'thorough_cmd': 'python3 run.py %s --thorough' % p,
                       'technique': e['technique'], 'level': 'other', 'level_note': e['note']})
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check has been built for it yet')} for p in ids if p not in REGISTRY]
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. run.py builds the rustc driver in driver/, dumps the THIR of both crates from /repo\'s working tree '
              'and decides each property on that dump and on the syntax tree of the Python layer; see DESIGN.md.'}
with open(HERE + '/MANIFEST.json', 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
