"""Every message type x (every declared parameter x every value of its type's alphabet, all pairs of parameters, language
tags, undeclared parameters, everything at once; nested messages given as plain data and as messages) through dictionary
and JSON form and back; compared with the input, with the message itself and once more after a second round."""
import json

from mc import alpha

TECHNIQUE = 'bounded exhaustive enumeration of message contents through serialise/parse round trips of the real code'
LEVEL = 'model_checking'
BOUNDS = {'quick': '75 types; all parameters x full value alphabet; all parameter pairs x 2 x 2 values; 16 undeclared parameters alone, in pairs and beside each parameter',
          'thorough': 'pairs x 4 x 4 values; triples of parameters for types with at most 25'}
FLOOR = {'quick': 60000, 'thorough': 200000}


def shards(tier):
    return alpha.pieces(tier)


def text_of(v):
    """plain data of a value as it is put in: nested messages as dictionaries"""
    from oidcmsg.message import Message
    if isinstance(v, Message):
        return {k: text_of(x) for k, x in v.items()}
    if isinstance(v, dict):
        return {k: text_of(x) for k, x in v.items()}
    if isinstance(v, list):
        return [text_of(x) for x in v]
    return v


def strict(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(strict(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(strict(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def is_plain(v):
    if isinstance(v, dict):
        return type(v) is dict and all(isinstance(k, str) and is_plain(x) for k, x in v.items())
    if isinstance(v, list):
        return type(v) is list and all(is_plain(x) for x in v)
    return v is None or type(v) in (str, int, float, bool)


def given(cname, cls, kw):
    """nested parameters handed over as messages instead of plain data"""
    cs = alpha.classes()
    res = {}
    for k, v in kw.items():
        nv = alpha.nested_values(cname, k) if k in cls.c_param and alpha.kind(cls.c_param[k]) in ('msg', 'msgs') else None
        if nv and not isinstance(v, str):
            c = cs[nv[0]]
            v = [c(**x) for x in v] if isinstance(v, list) else c(**v)
        res[k] = v
    return res


def run(ck, shard):
    cs = alpha.classes()
    for cname in shard:
        cls = cs[cname]
        nested = any(alpha.kind(s) in ('msg', 'msgs') for s in cls.c_param.values())
        cases = list(alpha.contents(cname, cls, ck.tier))
        for p, s in cls.c_param.items():
            if alpha.kind(s) in ('str', 'int', 'bool', 'dict') and not s[1]:
                cases.append(dict(alpha.required(cname, cls), **{p: None}))
            if alpha.kind(s) == 'list' and s[2] and s[2](['a', 'b'], 'dict') == ['a', 'b']:
                for v in (['a b', 'c'], [' '], ['é\n"', 'x y z']):
                    cases.append(dict(alpha.required(cname, cls), **{p: v}))
        from oidcmsg.message import Message
        for depth in list(range(1, 13)) + [30]:
            for kind in ('one', 'many'):
                v = Message(a='é', b=[1, None])
                for i in range(depth):
                    v = Message(**{'m%d' % i: [v, v] if kind == 'many' and i in (0, 5) else [v] if kind == 'many' else v, 'x': i})
                cases.append(dict(alpha.required(cname, cls), x_deep=v))
        for n, kw in enumerate(cases):
            for mode in ('plain', 'messages', 'bare'):
                if mode == 'messages' and not nested or mode == 'bare' and (not cls.c_default or n % 3):
                    continue
                ck.begin((cname, mode, kw))
                one(ck, cname, cls, kw, mode)


def one(ck, cname, cls, kw, mode):
    sd = mode != 'bare'

    def new(**a):
        return cls(set_defaults=sd, **a)
    try:
        m = new(**(given(cname, cls, kw) if mode == 'messages' else kw))
    except Exception as e:
        ck.fail('construction', '%s(%r): %r' % (cname, kw, e))
        return
    ref = dict(cls.c_default) if sd else {}
    ref.update({k: v if k != 'x_deep' else text_of(v) for k, v in kw.items()})
    deep = 'x_deep' in kw       # an undeclared message is plain data at the other end
    for k, v in list(ref.items()):      # absent = empty
        if v in ('', ['']) or v == [] and k in cls.c_param and alpha.kind(cls.c_param[k]) in ('list', 'msgs'):
            del ref[k]
    ck.expect(strict(text_of(m), ref), 'content %s' % cname, lambda: 'message holds %r, given %r' % (text_of(m), ref))
    before = alpha.plain(m)
    before_types = nested_types(m)
    try:
        d = m.to_dict()
        j = m.to_json()
        j2 = m.serialize('json', indent=1) if len(kw) % 2 else m.to_json(indent=1)
    except Exception as e:
        ck.fail('serialisation %s' % cname, repr(e))
        return
    ck.expect(alpha.plain(m) == before, 'message changed', lambda: 'serialising changed %r to %r' % (before, alpha.plain(m)))
    ck.expect(is_plain(d), 'not plain', lambda: 'dictionary form is not plain data: %r' % d)
    for how in ('dict', 'json', 'json indented', 'deserialize', 'dict via json'):
        try:
            if how == 'dict':
                b = new().from_dict(d)
            elif how == 'json':
                b = new().from_json(j)
            elif how == 'json indented':
                b = new().from_json(j2)
            elif how == 'deserialize':
                b = new().deserialize(j, 'json')
            else:
                b = new(**json.loads(json.dumps(d)))
        except Exception as e:
            ck.fail('parsing %s %s' % (how, cname), 'parsing %r: %r' % (d, e))
            continue
        same = b == m and alpha.plain(b) == before if not deep else strict(text_of(b), text_of(m))
        ck.case((cname, mode, how, repr(kw)), how if same else how + ' differs')
        ck.expect(same, 'round trip %s %s' % (how, cname), lambda: 'sent %r, received %r' % (before, alpha.plain(b)))
        ck.expect(deep or nested_types(b) == before_types, 'kind %s' % cname, lambda: 'nested kinds sent %r, received %r' % (before_types, nested_types(b)))
        try:
            again = b.to_dict() if how.startswith('dict') else b.to_json()
        except Exception as e:
            ck.fail('second serialisation %s' % cname, repr(e))
            continue
        if how.startswith('dict'):
            ck.expect(strict(again, d), 'second document %s' % cname, lambda: 'first %r, second %r' % (d, again))
        else:
            ck.expect(json.loads(again) == json.loads(j) and strict(json.loads(again), json.loads(j)), 'second document %s' % cname,
                      lambda: 'first %s, second %s' % (j, again))
    if mode == 'messages':
        ck.expect(strict(json.loads(j), json.loads(new(**kw).to_json())), 'plain and message %s' % cname,
                  lambda: 'nested messages and their plain form are serialised differently: %s' % j)


def nested_types(m):
    from oidcmsg.message import Message
    res = {}
    for k, v in m.items():
        if isinstance(v, Message):
            res[k] = (type(v).__name__, nested_types(v))
        elif isinstance(v, list) and v and isinstance(v[0], Message):
            res[k] = [(type(x).__name__, nested_types(x)) for x in v]
    return res
