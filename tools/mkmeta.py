#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import P, NA
TECH = 'contract-based deductive verification of the real C++ (contracts in contracts/%s_*.cpp; verification conditions generated from the LLVM IR of /repo\'s current source on every run, loops cut by invariants, discharged by z3/cvc5)'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
have = [p for p in P if glob.glob(os.path.join(V, 'contracts', p['id'] + '_*.cpp'))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': NA + [{'property': p['id'], 'reason': 'contracts for this property are not written yet'} for p in P if p not in have and p['id'] not in [x['property'] for x in NA]]}
for p in have:
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt vcg/check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt vcg/check.py %s --tier thorough' % p['id'],
                        'technique': TECH % p['id'], 'level': 'proof', 'level_note': p['note']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(have), 'checks')
