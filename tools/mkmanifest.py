#!/usr/bin/env python3
"""writes MANIFEST.json and properties.jsonl from engine/props.py and tools/properties.py"""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, 'tools'))
from engine.props import PROPS
from properties import PROPERTIES, NOT_APPLICABLE
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPERTIES:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in PROPERTIES]
assert len(ids) == len(set(ids))
checks = []
for p in PROPERTIES:
    i = p['id']
    if i in NOT_APPLICABLE: assert i not in PROPS; continue
    P = PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
                   'technique': P.get('technique', 'contracts on the real C++ code, weakest-precondition style symbolic execution of its LLVM IR, obligations discharged by an exact normal-form prover, z3 and cvc5'),
                   'level': P.get('level', 'proof'), 'level_note': P.get('note', '') or 'every obligation generated from /repo/src on this run is discharged for all inputs; real arithmetic in place of IEEE doubles; trusted: clang front end, the executor and normal-form prover in /verif/engine, z3/cvc5'})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
     'notes': 'No hooks are needed in /repo. See DESIGN.md.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
