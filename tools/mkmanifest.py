#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and plan.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PLAN:
        mods = sorted({x.get('module') for x in PLAN[i]} | {x.get('trace') for x in PLAN[i]} - {None})
        mods = [m for m in mods if m]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'TLA+ specification (%s) checked with TLC; %straces of the real library validated against it' % (
                           ', '.join(mods), 'histories explored by TLC replayed on the real library; ' if any(x['kind'] == 'replay' for x in PLAN[i]) else ''),
                       'level': 'model_checking', 'level_note': NOTES.get(i, NOTES['*'])})
    else:
        na.append({'property': i, 'reason': NOTES.get('na-' + i, 'no check yet; the specification of this part is being written')})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every observation uses the public interface. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
