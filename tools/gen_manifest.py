"""Writes MANIFEST.json from contracts/coverage.json and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cov = json.load(open(os.path.join(HERE, 'contracts', 'coverage.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = cov.get(p['id'])
    if not c or c.get('not_applicable'):
        na.append(dict(property=p['id'], reason=(c or {}).get('not_applicable', 'no contract decides this property yet; contracts are added step by step')))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py {} --tier quick'.format(p['id']), thorough_cmd='python3 check.py {} --tier thorough'.format(p['id']),
                       technique=c.get('technique', 'contracts on the real functions, verification conditions discharged by z3/cvc5 (all inputs, loops cut by invariants); failed obligations concretised on the real code'),
                       level=c.get('level', 'proof'), level_note=c['note']))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Verifier: vc/ (Python, z3 and cvc5 back ends); contracts: contracts/; replay layer on the real code: search/. No hooks in /repo.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
