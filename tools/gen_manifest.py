#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
WHY = {
    'C22': 'generated-input search applies (allocator hooks see released blocks), but no check was finished in this session',
    'C23': 'random schedules under a race detector apply, but no check was finished in this session; per-thread error stacks are covered by B06',
    'X01': 'generated-input search applies to the command-line tool, but no check was finished in this session; the library calls behind it are covered by C01-C21 and P01-P06',
}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 vf.py check {i}', thorough_cmd=f'VERIF_TIER=thorough python3 vf.py check {i}',
                           technique=c.get('technique', 'property-based testing: generated histories against a reference implementation, ASan/UBSan build'),
                           level=c.get('level', 'exploration'),
                           level_note=c.get('note', 'Generated-input search within the stated bounds; finds counterexamples, does not prove absence. Trusts the reference oracle named in the evidence file.')))
    else:
        na.append(dict(property=i, reason=WHY.get(i, 'no check built in this session')))
m = dict(version=1, setup_cmd='python3 vf.py setup', checks=checks, not_applicable=na,
         notes='All checks are generated-input search (engine/pbt.cpp); no hooks in /repo are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'unclaimed')
