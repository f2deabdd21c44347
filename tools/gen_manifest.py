#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
import sys
sys.path.insert(0, os.path.join(V, 'lib'))
import claims
checks, na = [], []
for p in props:
    i = p['id']
    if i in claims.CLAIMS:
        tech, note = claims.CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': f'bin/check {i}', 'thorough_cmd': f'VERIF_TIER=thorough bin/check {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': 'model_checking',
                       'level_note': note})
    else:
        na.append({'property': i, 'reason': claims.NA.get(i, 'no check yet')})
m = {'version': 1, 'setup_cmd': 'bash bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC; conformance of the real code by trace validation. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
