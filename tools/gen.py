#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props.json."""
import json, os
d = os.path.dirname(os.path.abspath(__file__)); v = os.path.dirname(d)
P = {}
exec(open(os.path.join(d, 'props.py')).read())
with open(os.path.join(v, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id','title','statement','quantifier','why_tests_cant','anchors')}) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']}); continue
    checks.append({'property': p['id'], 'quick_cmd': 'bash run.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash run.sh ' + p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'symbolic execution of the Go SSA of the real code, SMT (z3, cvc5) decides every branch and assertion; counterexamples replayed natively',
        'level': 'model_checking', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': {'guard': 'none', 'enable': 'No hooks in /repo: harnesses and environment stand-ins are added with a go build overlay.', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': NOTES}
json.dump(m, open(os.path.join(v, 'MANIFEST.json'), 'w'), indent=1)
for p in PROPS: assert len(p['title']) <= 80, p['id']
