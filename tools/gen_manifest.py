#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the slice table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import slices
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in slices.PROPS:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
            evidence_file=f'evidence/{i}.json', level='model_checking',
            technique='TLA+ specification model-checked with TLC; every explored transition replayed on the real contracts (conformance)',
            level_note='TLC explores the slices ' + ', '.join(slices.PROPS[i]['slices']) + ' of the specification within their bounds and checks its invariants; each '
              'transition is executed on the unmodified contracts and acceptance and public observations must equal the specification. Trusts cw-multi-test as the chain.'))
    else:
        na.append(dict(property=i, reason=slices.NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='none', enable='no hooks: the checks use the contracts\' public entry points only', source_commits=[]),
    checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
