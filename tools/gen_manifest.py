#!/usr/bin/env python3
"""writes MANIFEST.json from the check modules"""
import ast
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    f = os.path.join(here, 'mc', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        missing.append({'property': p['id'], 'reason': 'no check yet'})
        continue
    tree = ast.parse(open(f).read())
    c = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'LEVEL', 'BOUNDS'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({'property': p['id'], 'quick_cmd': 'bin/check %s quick' % p['id'], 'thorough_cmd': 'bin/check %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': c['TECHNIQUE'], 'level': c['LEVEL'],
                   'level_note': 'exhaustive within: ' + c['BOUNDS']['quick'] + ' (quick); ' + c['BOUNDS']['thorough'] + ' (thorough). Runs the real code.'})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': missing}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(missing), 'missing')
