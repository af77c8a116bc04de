#!/usr/bin/env python3
"""writes MANIFEST.json from vc/registry.py and properties.jsonl"""
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import importlib.util
spec = importlib.util.spec_from_file_location('registry', os.path.join(H, 'vc', 'registry.py'))
R = importlib.util.module_from_spec(spec); spec.loader.exec_module(R)
ids = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
na = []
for p in ids:
    i = p['id']
    if i in R.PROPS:
        q = R.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
            evidence_file='evidence/%s.json' % i, technique=q.get('technique', 'contract-based deductive verification of the LLVM IR compiled from the current source (symbolic execution with loop invariants, z3)'),
            level=q['level'], level_note=q.get('note', '')))
    else:
        na.append(dict(property=i, reason=R.NA.get(i, 'not built yet')))
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
