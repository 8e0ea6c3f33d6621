"""Explicit-state search over operation histories of real messages beside a plain dictionary: assignment, deletion, pop,
setdefault, update by dictionary and by message, merging extras, defaults, copying (going on with the copy or with the
original while the other one is watched), weeding, blank removal, clearing, changes inside values. After every step keys,
values, items, length, membership, lookups, extras and equality are compared; reached states are compared pairwise."""
import copy
import itertools
import json

from mc import alpha
from mc.checks.c05 import rules

TECHNIQUE = 'explicit-state model checking of operation histories, implementation in lockstep with a dictionary model'
LEVEL = 'model_checking'
BOUNDS = {'quick': '7 message types x 25-40 operations, all histories up to length 3 (4 for one type), states merged when message and model agree in everything; pairwise equality of 250 states per type',
          'thorough': 'histories up to length 5 for three types, 4 for all others; pairwise equality of 800 states'}
FLOOR = {'quick': 60000, 'thorough': 500000}


class Val:
    """a value to be stored, made anew each time it is used"""

    def __init__(self, make):
        self.make = make

    def __repr__(self):
        return repr(self.make())


def V(x):
    return Val(lambda: copy.deepcopy(x))


def address(**kw):
    def make():
        from oidcmsg.oidc import AddressClaim
        return AddressClaim(**copy.deepcopy(kw))
    return Val(make)


def msg(**kw):
    def make():
        from oidcmsg.message import Message
        return Message(**copy.deepcopy(kw))
    return Val(make)


TYPES = {
    'message.Message': {'sets': [('a', V('v')), ('a', V('')), ('a', V(0)), ('b#x', V(['x'])), ('b#x', V([])), ('\u00e9', V({'d': {'e': [1]}})), ('\u00e9', V(None)), ('b#x', msg(z=['1'])), ('', V('w'))],
                        'keys': ['a', 'b#x', '\u00e9', '']},
    'oauth2.AuthorizationRequest': {'sets': [('client_id', V('c')), ('client_id', V('')), ('client_id', V(None)), ('scope', V(['a'])), ('scope', V(['a', 'b'])), ('state', V('s')), ('x', V(['l'])), ('x', V(0)),
                                             ('state#en', V('t'))], 'keys': ['client_id', 'scope', 'state', 'x', 'state#en']},
    'oauth2.AccessTokenRequest': {'sets': [('grant_type', V('other')), ('grant_type', V('')), ('code', V('c')), ('code', V(None)), ('x', V(False)), ('x', V({'l': [1]}))], 'keys': ['grant_type', 'code', 'x']},
    'oidc.OpenIDSchema': {'sets': [('sub', V('s')), ('updated_at', V(5)), ('updated_at', V(0)), ('email_verified', V(False)), ('address', address(country='SE')), ('address', V(None)), ('x', V(None)), ('_claim_names', msg(a=['b']))],
                          'keys': ['sub', 'updated_at', 'email_verified', 'address', 'x', '_claim_names']},
    'oidc.RegistrationRequest': {'sets': [('application_type', V('native')), ('response_types', V(['code', 'id_token'])), ('redirect_uris', V(['https://x'])), ('client_name#ja', V('n')), ('jwks', V({'keys': [{}]})), ('x', V(''))],
                                 'keys': ['application_type', 'response_types', 'redirect_uris', 'client_name#ja', 'jwks', 'x']},
    'oidc.WebFingerRequest': {'sets': [('rel', V('r')), ('resource', V('q')), ('resource', V(None)), ('x', V([])), ('x', V('y'))], 'keys': ['rel', 'resource', 'x']},
    'oidc.Claims': {'sets': [('given_name', V(None)), ('given_name', V({'essential': True})), ('a#b', V({'values': ['1']})), ('x', V('y'))], 'keys': ['given_name', 'a#b', 'x']},
}
DEEP = ('oidc.WebFingerRequest', 'oidc.Claims', 'oauth2.AccessTokenRequest')


def clone(v):
    """an independent copy that does not rely on the code under test"""
    from oidcmsg.message import Message
    if isinstance(v, Message):
        n = type(v)(set_defaults=False)
        n._dict = {k: clone(x) for k, x in v._dict.items()}
        return n
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clone(x) for x in v]
    return v


def operations(name):
    t = TYPES[name]
    ops = [('set', k, v) for k, v in t['sets']]
    ops += [('del', k) for k in t['keys']]
    ops += [('pop', t['keys'][0]), ('popd', t['keys'][-1]), ('setdefault',) + t['sets'][0], ('setdefault',) + t['sets'][-1]]
    s = t['sets']
    ops += [('update', []), ('update', s[:1]), ('update', s[1:3] + s[-1:]), ('update msg', name, s[2:4]), ('update msg', 'message.Message', [s[0], s[-1], ('zz', V('1'))]),
            ('update self',), ('merge', s[-1:] + [('zz', V(['1']))]), ('defaults',), ('copy, go on with it',), ('copy, go on with the original',), ('weed',), ('blanks',), ('clear',), ('popitem',)]
    ops += [('inside', k) for k in t['keys'] if any(isinstance(v.make(), (list, dict)) or hasattr(v.make(), 'c_param') for x, v in s if x == k)]
    ops += [('bad del', 'nope'), ('bad pop', 'nope'), ('bad update', 5), ('bad update', 'a=b'), ('bad update', None)]
    return ops


class World:
    """a message, the dictionary it should be like, and a watched bystander (the other half of the last copy)"""

    def __init__(self, name, start):
        self.name = name
        self.cls = alpha.classes()[name]
        self.rule = rules()[name]
        self.other = None
        self.errors = []
        if start == 'bare':
            self.m = self.cls(set_defaults=False)
            self.d = {}
        elif start == 'defaults':
            self.m = self.cls()
            self.d = copy.deepcopy(self.rule['default'])
        else:
            s = dict(TYPES[name]['sets'][:1] + TYPES[name]['sets'][3:4])
            self.m = self.cls(**{k: v.make() for k, v in s.items()})
            self.d = copy.deepcopy(self.rule['default'])
            self.d.update({k: v.make() for k, v in s.items() if v.make() != ''})

    def err(self, sig, text):
        self.errors.append((sig, text))

    def do(self, op):
        m, d, what = self.m, self.d, op[0]
        if what == 'set':
            m[op[1]] = op[2].make()
            d[op[1]] = op[2].make()
        elif what in ('del', 'bad del'):
            self.both(lambda x: x.__delitem__(op[1]))
        elif what in ('pop', 'bad pop'):
            self.both(lambda x: x.pop(op[1]))
        elif what == 'popd':
            self.both(lambda x: x.pop(op[1], 'dflt'))
        elif what == 'setdefault':
            self.both(lambda x: x.setdefault(op[1], op[2].make()))
        elif what == 'update':
            m.update({k: v.make() for k, v in op[1]})
            d.update({k: v.make() for k, v in op[1]})
        elif what == 'bad update':
            try:
                m.update(op[1])
            except Exception:
                pass
            else:
                self.err('update', 'updated with %r' % (op[1],))
        elif what == 'update msg':
            o = alpha.classes()[op[1]]()
            exp = copy.deepcopy(rules()[op[1]]['default'])
            for k, v in op[2]:
                o.update({k: v.make()})
                exp[k] = v.make()
            m.update(o)
            d.update(exp)
        elif what == 'update self':
            m.update(m)
        elif what == 'merge':
            from oidcmsg.message import Message, add_non_standard
            o = Message()
            for k, v in op[1]:
                o[k] = v.make()
            add_non_standard(m, o)
            for k, v in op[1]:
                if k not in self.rule['params']:
                    d[k] = v.make()
        elif what == 'defaults':
            m.set_defaults()
            for k, v in self.rule['default'].items():
                d.setdefault(k, copy.deepcopy(v))
        elif what.startswith('copy'):
            c = m.copy()
            if type(c) is not type(m) or not c == m or c is m or alpha.plain(c) != alpha.plain(m):
                self.err('copy', 'copy of %r is %r' % (alpha.plain(m), alpha.plain(c)))
            snap = {k: clone(v) for k, v in d.items()}
            if what.endswith('it'):
                self.other, self.m = (m, snap), c
            else:
                self.other = (c, snap)
        elif what == 'weed':
            m.weed()
            for k in [k for k in d if k not in self.rule['params']]:
                del d[k]
        elif what == 'blanks':
            m.rm_blanks()
            for k in list(d):
                if d[k] is None or d[k] in ('', [], {}) or hasattr(d[k], 'c_param') and len(d[k]) == 0:
                    del d[k]
                elif d[k] in (0, False) and k not in m:      # whether these are blank is not laid down
                    del d[k]
        elif what == 'clear':
            m.clear()
            d.clear()
        elif what == 'popitem':
            try:
                k, v = m.popitem()
            except KeyError:
                if d:
                    self.err('popitem', 'nothing to pop from %r' % d)
            else:
                if k not in d or alpha.plain(d.pop(k)) != alpha.plain(v):
                    self.err('popitem', 'popped %r: %r' % (k, v))
        elif what == 'inside':
            for x in (m, d):
                v = x.get(op[1])
                if isinstance(v, list):
                    v.append('new')
                elif isinstance(v, dict):
                    v['new'] = ['n']
                    inner = v.get('d')
                    if isinstance(inner, dict):
                        inner['deep'] = 1
                elif hasattr(v, 'c_param'):
                    v['new'] = 'n'
                    for y in v.values():
                        if isinstance(y, list):
                            y.append('deep')
        else:
            raise AssertionError(op)

    def both(self, f):
        r = []
        for x in (self.m, self.d):
            try:
                r.append(alpha.plain(f(x)))
            except KeyError:
                r.append('KeyError')
        if r[0] != r[1]:
            self.err('result', 'answer %r, a dictionary answers %r' % tuple(r))

    def key(self):
        o = None if self.other is None else alpha.plain(self.other[0])
        return repr((self.name, [(k, alpha.plain(v)) for k, v in self.m._dict.items()], sorted((k, repr(v)) for k, v in vars(self.m).items() if k != '_dict'), o,
                     self.shape(self.m), self.other is not None and self.shared()))

    def shape(self, m):
        """which values inside are one and the same object"""
        seen = {}

        def walk(v):
            if isinstance(v, (list, dict)) or hasattr(v, 'c_param'):
                n = seen.setdefault(id(v), len(seen))
                kids = v if isinstance(v, list) else v.values()
                return (n, [walk(x) for x in kids])
            return None
        return [walk(v) for v in m._dict.values()]

    def shared(self):
        def ids(v, acc):
            if isinstance(v, (list, dict)) or hasattr(v, 'c_param'):
                acc.add(id(v))
                for x in (v if isinstance(v, list) else v.values()):
                    ids(x, acc)
            return acc
        a, b = set(), set()
        for v in self.m._dict.values():
            ids(v, a)
        for v in self.other[0]._dict.values():
            ids(v, b)
        return len(a & b)

    def check(self):
        m, d = self.m, self.d
        P = alpha.plain
        exp = {k: P(v) for k, v in d.items()}
        views = {
            'keys': (sorted(m.keys()), sorted(d)), 'iteration': (sorted(m), sorted(d)), 'length': (len(m), len(d)), 'items': ({k: P(v) for k, v in m.items()}, exp),
            'values': (sorted(repr(P(v)) for v in m.values()), sorted(repr(P(v)) for v in d.values())),
            'extra': ({k: P(v) for k, v in m.extra().items()}, {k: v for k, v in exp.items() if k not in self.rule['params']}),
            'only_extras': (bool(m.only_extras()), not any(k in self.rule['params'] for k in d)),
        }
        for n, (a, b) in views.items():
            if a != b:
                self.err(n, '%s: %r, expected %r' % (n, a, b))
        from oidcmsg.message import by_schema
        declared = by_schema(self.cls, **d)
        if {k: P(v) for k, v in declared.items()} != {k: v for k, v in exp.items() if k in self.rule['params']}:
            self.err('by_schema', 'by_schema gives %r of %r' % (declared, d))
        for k in TYPES[self.name]['keys'] + ['zz', 'nope']:
            if (k in m) != (k in d):
                self.err('membership', '%r in message: %r' % (k, k in m))
            if P(m.get(k)) != P(d.get(k)) or P(m.get(k, 'dflt')) != P(d.get(k, 'dflt')):
                self.err('get', 'get(%r) is %r / %r' % (k, m.get(k), m.get(k, 'dflt')))
            try:
                got = P(m[k])
            except KeyError:
                got = 'KeyError'
            except Exception as e:
                got = repr(e)
            if got != (P(d[k]) if k in d else 'KeyError'):
                self.err('lookup', 'message[%r] is %r' % (k, got))
        # equality
        same = self.cls(set_defaults=False)
        same.update({k: clone(v) for k, v in d.items()})
        if not (m == same and same == m) or m != same:
            self.err('equality', 'not equal to a message with the same content: %r' % d)
        same.update({'zz': 'different'})
        if m == same or not m != same:
            self.err('equality', 'equal to a message with different content')
        from oidcmsg.message import Message
        from oidcmsg.oidc import ResourceRequest
        for c in (Message, ResourceRequest):
            if c is not self.cls:
                o = c(set_defaults=False)
                o.update({k: clone(v) for k, v in d.items()})
                if m == o or o == m:
                    self.err('equality', 'equal to a message of another type')
        if m == dict(d) or m == None:  # noqa
            self.err('equality', 'equal to something that is no message')
        if self.other is not None:
            a, b = {k: P(v) for k, v in self.other[0].items()}, {k: P(v) for k, v in self.other[1].items()}
            if a != b:
                self.err('copy not independent', 'the other half of a copy changed from %r to %r' % (b, a))


def shards(tier):
    res = []
    for n in TYPES:
        for start in ('bare', 'defaults', 'filled'):
            for i in range(4 if n in DEEP else 2):
                res.append((n, start, i, 4 if n in DEEP else 2))
    return res + [('pairs', n) for n in TYPES]


def run(ck, shard):
    if shard[0] == 'pairs':
        return pairs(ck, shard[1])
    name, start, part, parts = shard
    ops = operations(name)
    depth = (5 if name in DEEP else 4) if ck.thorough else (4 if name == DEEP[0] else 3)
    search(ck, name, start, ops, depth, ops[part::parts])


def replay(name, start, hist):
    w = World(name, start)
    for op in hist:
        w.do(op)
    return w


def search(ck, name, start, ops, depth, first, limit=None):
    w = World(name, start)
    w.check()
    for sig, t in w.errors:
        ck.fail('%s %s' % (sig, name), t, (start,))
    seen = {w.key()}
    level = [()]
    worlds = [w]
    for n in range(depth):
        nxt = []
        for hist in level:
            for op in (first if n == 0 else ops):
                ck.begin((name, start, hist, op))
                try:
                    w = replay(name, start, hist)
                    w.errors = []
                    w.do(op)
                    w.check()
                except Exception as e:
                    ck.fail('exception %s %s' % (op[0], name), repr(e), (start, hist + (op,)))
                    continue
                ck.step()
                ck.trace()
                ck.outcome(op[0])
                for sig, t in w.errors:
                    ck.fail('%s after %s %s' % (sig, op[0], name), t, (start, hist + (op,)))
                k = w.key()
                ck.state(k)
                if k not in seen:
                    seen.add(k)
                    worlds.append(w)
                    if not w.errors:
                        nxt.append(hist + (op,))
                    if limit and len(worlds) >= limit:
                        return worlds
        level = nxt
    return worlds


def pairs(ck, name):
    """equality of any two reached contents, also across types"""
    n = 800 if ck.thorough else 250
    ws = search(ck, name, 'filled', operations(name), 3, operations(name), n)
    o = 'message.Message' if name != 'message.Message' else 'oidc.Claims'
    foreign = search(ck, o, 'bare', operations(o), 2, operations(o), 40)
    seen = {}
    for w in ws + foreign:
        seen.setdefault((w.name, repr(alpha.plain(w.m))), w)
    from oidcmsg.message import Message
    for w in list(seen.values()):
        # a message inside is something else than a dictionary with the same content
        for k, v in w.m.items():
            if isinstance(v, Message) and k not in w.cls.c_param:
                n = replay(w.name, 'bare', ())
                n.m.update({x: clone(y) for x, y in w.m.items()})
                n.m.update({k: {x: clone(y) for x, y in v.items()}})
                if not isinstance(n.m[k], Message):
                    seen.setdefault((n.name, 'dictionary', repr(alpha.plain(n.m))), n)
    ws = list(seen.values())
    for a, b in itertools.product(ws, repeat=2):
        ck.begin((alpha.plain(a.m), alpha.plain(b.m)))
        exp = a.name == b.name and loose(a.m) == loose(b.m)
        ck.step()
        ck.outcome('equal' if exp else 'different')
        ck.expect((a.m == b.m) == exp and (a.m != b.m) == (not exp), 'pair equality', 'equal: %r' % (a.m == b.m))


def loose(v):
    """content with the equality of plain Python values"""
    if hasattr(v, 'c_param'):
        return [type(v).__name__, {k: loose(x) for k, x in v.items()}]
    if isinstance(v, dict):
        return {k: loose(x) for k, x in v.items()}
    if isinstance(v, list):
        return ['L'] + [loose(x) for x in v]
    return v
