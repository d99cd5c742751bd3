#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, R)
from plan import PLAN, LEVEL, BOUND
ALL = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
NA = {}
m = dict(version=1, setup_cmd='make -s -C engine OUT=../build', checks=[], not_applicable=[])
for p in ALL:
    if p in PLAN:
        m['checks'].append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p, level=LEVEL,
            technique='symbolic execution of the clang IR of the real headers (own engine on LLVM bitcode) with Z3 deciding every branch, memory access and assertion; counterexamples replayed on native builds',
            level_note='Holds for every value within: ' + BOUND[p] + '. Trusted: the clang 18 -O1 front end and middle end, the engine (checked by replaying solver models natively), Z3; beyond the bounds nothing is claimed.'))
    else: m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'no check yet')))
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
