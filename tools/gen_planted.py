#!/usr/bin/env python3
"""rewrites the section "Planted changes" of DESIGN.md from seeded/*/meta.json and tools/missed.json"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(os.path.join(here, 'tools', 'missed.json')))
by = {}
for i in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
    by.setdefault(m['property'], []).append((i, m))
n = sum(len(v) for v in by.values())
out = ['## Planted changes\n',
       '%d changes are kept in seeded/, each written from the text of a property and the code, not from the check. Each is caught by the quick tier of the' % n,
       'check of its own property (`tools/catch.sh`). %d of them were missed when they were first tried; what the check explores since is given' % len([m for m in missed if any(m == i for v in by.values() for i, _ in v)]),
       'in brackets. Apart from these, `tools/mutate.py` (single-operator changes of every function of the library, as an aid during development; survivors were',
       'read one by one) and some 40 behaviour-preserving rewritings of the library (all checks quiet) were used.\n']
for p in sorted(by):
    out.append('* %s: ' % p + '; '.join('`%s` %s%s' % (i[4:], m['what_it_breaks'].strip().rstrip('.'), ' [missed at first: %s]' % missed[i] if i in missed else '') for i, m in by[p]))
f = os.path.join(here, 'DESIGN.md')
s = open(f).read()
if '## Planted changes\n' in s:
    a = s.index('## Planted changes\n')
    b = s.index('\n## ', a + 5) + 1
    s = s[:a] + s[b:]
b = s.index('## Machinery that was corrected')
open(f, 'w').write(s[:b] + '\n'.join(out) + '\n\n' + s[b:])
