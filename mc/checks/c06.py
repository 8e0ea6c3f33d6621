"""Every declared text, integer, boolean, list and JSON object parameter of every message type x every value of a mixed-type alphabet x
every way in (constructor, item assignment over an absent and over a present value, dictionary, JSON); also inside nested
messages. What the message holds afterwards is compared with the declared kind from the reviewed table (mc/rules.json)."""
import json
import re
import urllib.parse
from math import trunc

from mc import alpha
from mc.checks.c01 import text_of
from mc.checks.c05 import filled, rules

TECHNIQUE = 'bounded exhaustive enumeration of parameters x values x ways in against a typing reference'
LEVEL = 'model_checking'
BOUNDS = {'quick': '75 types, all text/integer/boolean/list/object parameters x 77 values x 6-7 ways in; tagged names x 3 ways in; nested parameters x the same values',
          'thorough': 'x every other parameter of the type present as well'}
FLOOR = {'quick': 100000, 'thorough': 200000}

VALUES = ['a', 'a b', '', ' ', '5', '-7', '0', '+3', ' 8 ', '1.5', '1e3', '0x10', '1_000', 'true', 'True', 'false', 'null', 'None', '[]', '["a"]', '"a"', '[{"a": 1}]', '{}', '{"a": 1}', '\u0665', '\u00e9', '--1', '5 6',
          0, 1, -1, 5, 10 ** 30, True, False, 1.0, 1.5, -0.5, 0.0, float('inf'), float('nan'), 1e300, None, [], [None], ['a'], ['a', 'b'], ['a b'], [''], ['5'], [5], ['a', 5], [5, 'a'], [True], ['a', None],
          ['a', ['b']], [['a']], [{}], {}, {'a': 1}, {'a': 'b'}, b'a', b'5', ('a',), ('a', 'b'), {'a'}, object,
          *[['s%d' % i for i in range(n)] + x for n in (9, 10, 20, 300) for x in ([], [5], [None])], ['a'] + [5] + ['b'] * 20, [['a']] * 12, list(range(40))]
JSONABLE = [v for v in VALUES if not isinstance(v, (bytes, tuple, set, type)) and not (isinstance(v, float) and (v != v or v in (float('inf'), 1e300)))]
WAYS = ('constructor', 'assign', 'assign over', 'dict', 'json', 'parsed over')


def right(kind, v):
    """has to be taken"""
    if kind == 'str':
        return type(v) is str
    if kind == 'int':
        return type(v) is int or isinstance(v, str) and re.fullmatch(r'-?[0-9]+', v) is not None
    if kind == 'bool':
        return type(v) is bool
    if kind == 'dict':
        return type(v) is dict
    return isinstance(v, list) and bool(v) and all(type(x) is str for x in v) and v != ['']


def same(kind, held, v):
    """held is of the declared kind and means the same as v"""
    if kind == 'str':
        return type(held) is str and type(v) is str and held == v
    if kind == 'int':
        if type(held) is not int or type(v) is bool:
            return False
        if isinstance(v, (int, float)):
            return held == v or isinstance(v, float) and held == trunc(v)
        if isinstance(v, bytes):
            v = v.decode()
        return isinstance(v, str) and re.fullmatch(r'\s*[+-]?\d+(_\d+)*\s*', v) is not None and held == int(v)
    if kind == 'bool':
        return type(held) is bool and type(v) is bool and held == v
    if kind == 'dict':
        if isinstance(v, (str, bytes)):
            try:
                v = json.loads(v)
            except ValueError:
                return False
        return type(held) is dict and held == v
    if type(held) is not list or not all(type(x) is str for x in held):
        return False
    if isinstance(v, (list, tuple)):
        # one string may hold several words where words are space separated
        return held == list(v) or len(v) == 1 and isinstance(v[0], str) and held == v[0].split(' ')
    if isinstance(v, bytes):
        return held == [v.decode()]
    return isinstance(v, str) and (held == [v] or held == v.split(' '))


def nothing(held):
    return held is None or held == [] or held == '' or held == {}


def shards(tier):
    return alpha.pieces(tier)


def run(ck, shard):
    cs = alpha.classes()
    for name in shard:
        if name not in rules() or name not in cs:
            continue
        cls, r = cs[name], rules()[name]
        base = filled(name, cls)
        for p, (kind, req, _) in r['params'].items():
            if p == '*' or alpha.is_time(name, p):
                continue
            if kind in ('str', 'int', 'bool', 'list', 'dict'):
                for v in VALUES:
                    for way in WAYS + ('form',) * (kind == 'dict' and isinstance(v, str) and v != ''):
                        ck.begin((name, p, v, way))
                        if way in ('json', 'parsed over') and not any(v is x for x in JSONABLE):
                            continue
                        one(ck, name, cls, {}, p, kind, v, way)
                        if ck.thorough:
                            full = {q: alpha.values(name, cls, q, True)[0] for q in r['params'] if q != p and q != '*' and alpha.values(name, cls, q, True)}
                            one(ck, name, cls, full, p, kind, v, way)
                # the same parameter in some language: written and read under its tagged name
                for tag in ('#ja', '#x#y'):
                    for v in VALUES:
                        for way in ('constructor', 'dict', 'json'):
                            if way == 'json' and not any(v is x for x in JSONABLE):
                                continue
                            ck.begin((name, p + tag, v, way))
                            one(ck, name, cls, {}, p + tag, kind, v, way)
            elif kind in ('msg', 'msgs'):
                for v in VALUES + ['a=b', [{'a': 'b'}, 5], [{'a': 'b'}, {'a': 1}]]:
                    for way in ('constructor', 'assign', 'dict', 'json'):
                        if way != 'json' or any(v is x for x in JSONABLE):
                            ck.begin((name, p, v, way))
                            message(ck, name, cls, p, kind, v, way)
                nv = alpha.nested_values(name, p)
                if nv and nv[0] in rules() and nv[0] != 'message.Message' and nv[0] not in ('oidc.Claims', 'oidc.ClaimsRequest', 'oidc.identity_assurance.Evidence'):
                    nested(ck, name, cls, p, kind, nv[0], cs)


def one(ck, name, cls, other, p, kind, v, way):
    sig = '%s %s %s' % (kind, type(v).__name__, way)
    good = {'str': 'old', 'int': 42, 'bool': True, 'list': ['old', 'two'], 'dict': {'old': 1}}[kind]
    before = None
    try:
        if way == 'constructor':
            m = cls(set_defaults=False, **dict(other, **{p: v}))
        elif way.startswith('assign'):
            m = cls(set_defaults=False, **(dict(other, **{p: good}) if way == 'assign over' else other))
            before = alpha.plain(m)
            m[p] = v
        elif way == 'dict':
            m = cls(set_defaults=False).from_dict(dict(other, **{p: v}))
        elif way == 'json':
            m = cls(set_defaults=False).from_json(json.dumps(dict(other, **{p: v})))
        elif way == 'form':
            m = cls(set_defaults=False).from_urlencoded(urllib.parse.urlencode({p: v}))
        else:
            m = cls(set_defaults=False, **dict(other, **{p: good}))
            before = alpha.plain(m)
            m.from_json(json.dumps({p: v}))
    except Exception as e:
        ck.case((name, p, repr(v), way, bool(other)), 'refused')
        ck.expect(not right(kind, v), 'refused ' + sig, '%s.%s = %r refused: %r' % (name, p, v, e))
        if before is not None:
            ck.expect(alpha.plain(m) == before, 'changed ' + sig, lambda: 'refused, but the message changed from %r to %r' % (before, alpha.plain(m)))
        return
    held = m.get(p)
    ok = same(kind, held, v)
    ck.case((name, p, repr(v), way, bool(other)), 'taken' if ok else 'nothing')
    if right(kind, v) and v != '':
        ck.expect(ok, 'lost ' + sig, '%s.%s = %r, but it holds %r' % (name, p, v, held))
    elif not ok:
        # nothing is held - or what was there before
        kept = way in ('assign over', 'parsed over') and type(held) is type(good) and held == good
        ck.expect(nothing(held) or kept, 'taken ' + sig, '%s.%s = %r taken as %r' % (name, p, v, held))
    ck.expect(all(k in m for k in other), 'others ' + sig, 'other parameters disappeared')


def message(ck, name, cls, p, kind, v, way):
    """where a message belongs, a message with that content is held or nothing; a token is kept as it came"""
    from oidcmsg.message import Message
    m = cls(set_defaults=False)
    try:
        if way == 'constructor':
            m = cls(set_defaults=False, **{p: v})
        elif way == 'assign':
            m[p] = v
        elif way == 'dict':
            m.from_dict({p: v})
        else:
            m.from_json(json.dumps({p: v}))
    except Exception:
        ck.case((name, p, repr(v), way), 'refused')
        ck.expect(way == 'constructor' or text_of(m) == {}, 'message changed', lambda: 'refused, but the message holds %r' % text_of(m))
        return
    held = m.get(p)
    if nothing(held):
        ck.case((name, p, repr(v), way), 'nothing')
        return
    ck.case((name, p, repr(v), way), 'taken')
    if cls.c_param[p][3] is None:
        ok = isinstance(v, (str, dict)) and held == v
    else:
        given = v
        if isinstance(v, str):
            try:
                given = json.loads(v)
            except ValueError:
                given = None
        if kind == 'msgs':
            given = given if isinstance(given, list) else [given]
            ok = isinstance(held, list) and all(isinstance(x, Message) for x in held) and [text_of(x) for x in held] == given
        else:
            ok = isinstance(held, Message) and text_of(held) == given
    ck.expect(ok, 'message %s %s' % (type(v).__name__, way), lambda: '%s.%s = %r taken as %r' % (name, p, v, held))


def nested(ck, name, cls, p, kind, inner, cs):
    """wrongly typed members of nested messages"""
    icls, ir = cs[inner], rules()[inner]
    base = alpha.nested_values(name, p)[1][0]
    base = base[0] if kind == 'msgs' else base
    for q, (k, req, _) in ir['params'].items():
        if k not in ('str', 'int', 'bool', 'list', 'dict') or alpha.is_time(inner, q):
            continue
        for v in JSONABLE:
            doc = dict(base, **{q: v})
            doc = [doc] if kind == 'msgs' else doc
            for way in ('constructor', 'assign', 'dict', 'json'):
                ck.begin((name, p, q, v, way))
                m = cls(set_defaults=False)
                try:
                    if way == 'constructor':
                        m = cls(set_defaults=False, **{p: doc})
                    elif way == 'assign':
                        m[p] = doc
                    elif way == 'dict':
                        m.from_dict({p: doc})
                    else:
                        m.from_json(json.dumps({p: doc}))
                except Exception as e:
                    ck.case((name, p, q, repr(v), way), 'refused')
                    ck.expect(not right(k, v), 'nested refused', '%s.%s.%s = %r refused: %r' % (name, p, q, v, e))
                    ck.expect(way == 'constructor' or alpha.plain(m) == alpha.plain(cls(set_defaults=False)), 'nested changed', 'refused, but the message changed')
                    continue
                x = m[p][0] if kind == 'msgs' else m[p]
                held = x.get(q)
                ok = same(k, held, v)
                ck.case((name, p, q, repr(v), way), 'taken' if ok else 'nothing')
                if right(k, v) and v != '':
                    ck.expect(ok and type(x) is icls, 'nested lost', '%s.%s.%s = %r, but it holds %r (%r)' % (name, p, q, v, held, type(x)))
                elif not ok:
                    ck.expect(nothing(held), 'nested taken', '%s.%s.%s = %r taken as %r' % (name, p, q, v, held))
