#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pv.registry import CHECKS, NOT_APPLICABLE
ids = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    c = CHECKS.get(i)
    if not c:
        continue
    fs = ', '.join(x for _, x, *_ in c['contracts'])
    checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
                       technique='contract-based deductive verification: weakest-precondition obligations from rustc MIR of the real functions, discharged by z3',
                       level='proof', level_note=c['note']))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'No contract for the functions behind it is finished yet.')) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd='python3-vt -m pv.extract', checks=checks, not_applicable=na,
         notes='See DESIGN.md. No hooks in /repo: the verifier reads the compiler\'s own MIR of the unmodified crate. Each evidence file says per function '
               'under contract which obligations were discharged; a tree on which a proof cannot be completed is reported as "bounded only", never as proved.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
