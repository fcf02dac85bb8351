#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification (Verus) of the functions extracted from /repo on every run',
            'level': 'proof',
            'level_note': PROPS[i].get('note') or 'Every obligation of the contracts on the real functions is discharged for all inputs; trusted: Verus/Z3, the extractor, the assumed contracts listed in the evidence.',
            'theorems': PROPS[i].get('theorems', []),
        })
        if not checks[-1]['theorems']:
            del checks[-1]['theorems']
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not yet under contract')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Contracts are in contracts/*.vc, the extractor in extract/, the differential search that replays failing inputs on the real crate in replay/. No hooks are needed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
