#!/usr/bin/env python3
"""writes MANIFEST.json from the list below and properties.jsonl"""
import json
import os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
T = 'contract-based deductive verification of the real source (pyvc: symbolic execution with loop contracts, z3/cvc5)'
exec(open(os.path.join(H, 'tools', 'claims.py')).read())
checks = []
for p in P:
    if p in CLAIMS:
        c = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd=f'./check {p} quick', thorough_cmd=f'./check {p} thorough', evidence_file=f'evidence/{p}.json',
                           technique=c.get('technique', T), level=c.get('level', 'proof'), level_note=c['note'], **({'theorems': c['theorems']} if 'theorems' in c else {})))
na = [dict(property=p, reason=NA.get(p, 'not built yet')) for p in P if p not in CLAIMS]
m = dict(version=1, setup_cmd='true', hooks=dict(guard='VC_HOOKS (unused: no hook was needed)', enable='none needed', source_commits=[]), checks=checks, not_applicable=na,
         notes='see DESIGN.md; /repo is read from its working tree on every run (VC_REPO overrides the path for experiments only)')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('ok', len(checks), 'checks', len(na), 'not applicable')
except ImportError:
    print('written', len(checks))
