#!/usr/bin/env python3
"""writes MANIFEST.json from vc/props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vc'))
from props import PROPS
NA = getattr(__import__('props'), 'NOT_APPLICABLE', {})
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS or PROPS[i].get('skip'): continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 vc/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 vc/check.py ' + i, evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification of the C++ (clang AST to Verus/Z3 obligations, function by function); replayed on the sanitized real code', level=p.get('level', 'proof'),
        level_note=p['note'] + ' Trusted: the AST-to-obligation translator (vc/), the standard-library model (spec/prelude.rs, vc/lib.py), clang, Verus, Z3.'))
na = [dict(property=i, reason=NA.get(i, 'check not built yet')) for i in ids if i not in PROPS or PROPS[i].get('skip')]
json.dump(dict(version=1, setup_cmd='python3 vc/setup.py', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
