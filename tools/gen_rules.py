#!/usr/bin/env python3
"""Writes mc/rules.json: the reviewed declarative rules of every message type (kinds, required, permitted values, defaults).
Run once on a reviewed tree; the checks compare the library against this table, not against itself."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import target
target.setup()
target.load()
from mc import alpha
from oidcmsg.message import Message
out = {}
for n, c in alpha.classes().items():
    out[n] = {'params': {p: [alpha.kind(s), bool(s[1]), bool(s[4])] for p, s in sorted(c.c_param.items())},
              'allowed': {k: list(v) for k, v in sorted(c.c_allowed_values.items())},
              'default': c.c_default,
              'declarative': c.verify is Message.verify}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc', 'rules.json'), 'w') as fp:
    json.dump(out, fp, indent=1, sort_keys=True)
