#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/properties.py (run by hand)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import properties as P
R = os.path.dirname(H)
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in P.PROPERTIES:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(q) + '\n')
checks = []
for p in P.PROPERTIES:
    if p['id'] in P.NOT_APPLICABLE:
        continue
    checks.append({'property': p['id'],
                   'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                   'technique': 'contract-based deductive verification of the real code: contracts on the functions of /repo, verification conditions generated from their LLVM IR on every run, discharged by z3/cvc5; counterexamples replayed on the compiled code',
                   'level': p.get('level', 'proof'), 'level_note': p.get('note', '')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in P.NOT_APPLICABLE.items()],
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo are needed', 'source_commits': []}}
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
