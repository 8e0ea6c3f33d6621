#!/usr/bin/env python3
"""rewrites the section "Properties" of DESIGN.md from properties.jsonl and the check modules"""
import ast
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for p in [json.loads(x) for x in open(os.path.join(here, 'properties.jsonl'))]:
    t = ast.parse(open(os.path.join(here, 'mc', 'checks', p['id'].lower() + '.py')).read())
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'BOUNDS', 'ASSUMPTIONS'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('* Decided by: %s.' % c['TECHNIQUE'])
    out.append('* ' + ' '.join(ast.get_docstring(t).split()))
    out.append('* Bounds: quick: %s. Thorough: %s.' % (c['BOUNDS']['quick'], c['BOUNDS']['thorough']))
    out += ['* Assumption: %s.' % a for a in c.get('ASSUMPTIONS', [])]
    out.append('* Why tests cannot: %s\n' % p['why_tests_cant'])
f = os.path.join(here, 'DESIGN.md')
s = open(f).read()
a, b = s.index('## Properties\n'), s.index('## What is not judged')
open(f, 'w').write(s[:a] + '## Properties\n\n' + '\n'.join(out) + '\n' + s[b:])
