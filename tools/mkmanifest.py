#!/usr/bin/env python3
"""writes MANIFEST.json from levels.json and properties.jsonl"""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
L = json.load(open('levels.json'))
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
NA = json.load(open('not-applicable.json')) if os.path.exists('not-applicable.json') else {}
checks, na = [], []
for i in ids:
    if i in L:
        m = L[i]
        checks.append(dict(
            property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {i}',
            evidence_file=f'evidence/{i}.json',
            technique=m.get('technique', 'contract-based deductive verification: contracts on the real functions, obligations '
                            'generated from the current source by symbolic execution and discharged by z3/cvc5'),
            level=m.get('level', 'proof'),
            level_note=m.get('note') or (
                'Every obligation of the contracts is discharged on every run for all inputs; trusts the symbolic executor and its '
                'contracts for pandas/numpy, reals for floats. ' + m.get('bounded', ''))))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not yet under contract (work in progress)')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo. check.py decides every property; see DESIGN.md.'),
          open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
