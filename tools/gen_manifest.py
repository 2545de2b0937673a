#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed checks come from CLAIMED, everything else in
properties.jsonl is listed under not_applicable with a reason."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {}
NOT_CLAIMED = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        checks.append({'property': i, 'quick_cmd': f'./run.sh {i}',
                       'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {i}',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': tech, 'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NOT_CLAIMED.get(i, 'No check has been built for this property yet (work in progress).')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, TLC as the deciding engine, Python drivers in checks/ and vlib/.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
