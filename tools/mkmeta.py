#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from props import PROPS, NA
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': [p['observe']]}}) + '\n')
T = 'contract-based deductive verification of the real C: VCs from the clang AST, z3/cvc5 and a rational normal form'
checks = []
for p in PROPS:
    if p['id'] in NA:
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt /verif/vcg/check.py %s quick' % p['id'],
                   'thorough_cmd': 'python3-vt /verif/vcg/check.py %s thorough' % p['id'], 'technique': p.get('technique', T),
                   'level': p.get('level', 'proof'), 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: contracts live in /verif/spec, the functions are taken from /repo unmodified on every run.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import subprocess
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(V + '/properties.jsonl'):
        jsonschema.validate(json.loads(l), s)
    print('valid', len(PROPS))
except ImportError:
    pass
