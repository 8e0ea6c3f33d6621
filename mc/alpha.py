"""Message classes and well-typed value alphabets shared by the checks."""
import inspect
import itertools
import sys

from . import target

TEXTS = ['a', 'Å é ü', 'a b', 'a"b\\c', '&=?#%+;/:@', '{"a": "b=c&d"}', '[1]', '1', '-7', 'true', 'null', '0',
         'line\nbreak\ttab\r', '\u2028\u00a0', '\U0001040d\U0001f600', ' lead', 'trail ', '%41%zz', 'a=b', 'x' * 3000,
         ''.join(map(chr, range(0x20))) + 'z', ''.join(map(chr, range(0x20, 0x250))), 'e\u0301\u212b\ufb01\u200d\ufeff\ufffd\uffff', '\ufeffa\x00']
WORDS = ['a', 'é&=+', '%20', 'openid', 'x/y?z#w', '"q"', '\U0001f600', '1', '{}']   # space-free, non-empty
LISTS = [['a'], ['a', 'b'], ['b', 'a'], ['a', 'a'], ['é&=+', '%20', '#?'], ['"q"', '{}', '[]'],
         ['a\tb', '\u00a0', 'x\r\ny', '\u3000z', '\x0b\x1f\x85', '\x00', 'e\u0301\u212b\ufeff'], ['a', '', 'b'], ['', 'a', ''], ['a,b', 'c;d', "e'f", 'g|h'],
         ['w%d' % i for i in range(60)]]
INTS = [1, 0, -1, 2 ** 31, 2 ** 63, 10 ** 30]
DICTS = [{'a': 1}, {'a': [1, 2, {'b': None}], 'c': {'d': 'é&='}}, {'http://x/y?z=1': {}}, {'k': True, 'l': 1.5},
         {'n': None}, {}]
ISO = ['2020-01-11T11:00:00+0100', '2012-04-23T18:25:43.511+01', '2012-04-23']
EXTRAS = [('x_text', 'plain'), ('x_odd', '&=?#%+ é"\\'), ('x_num', 5), ('x_zero', 0), ('x_bool', True), ('x_false', False),
          ('x_list', ['p', 'q']), ('x_one', ['p']), ('x_dict', {'a': {'b': [1, None]}}), ('x_null', None),
          ('x_float', 1.5), ('x_dicts', [{'a': 1}, {'b': 2}]), ('k e=y&é', 'v'), ('x#', 'v'), ('#x', 'v'), ('x#y#z', 'v'),
          ('x\x00\t\x1f', 'v'), ('\ufeffe\u0301\u212b', 'v')]


def classes():
    """(module, name) -> class, for every message type the library defines"""
    from oidcmsg.message import Message
    res = {}
    for m in target.MODULES:
        for n, o in sorted(inspect.getmembers(sys.modules[m])):
            if inspect.isclass(o) and issubclass(o, Message) and o.__module__ == m:
                res[m[8:] + '.' + n] = o
    return res


def kind(spec):
    """coarse kind of a parameter spec, from its declared type only"""
    from oidcmsg.message import Message
    t = spec[0]
    if t in (str, int, bool, dict):
        return t.__name__
    if isinstance(t, list):
        if t[0] is str:
            return 'list'
        if t[0] is dict:
            return 'dicts'
        if inspect.isclass(t[0]) and issubclass(t[0], Message):
            return 'msgs'
    if inspect.isclass(t) and issubclass(t, Message):
        return 'msg'
    return 'other'


TIME_PARAMS = {('identity_assurance.Document', 'date_of_issuance'), ('identity_assurance.Document', 'date_of_expiry'),
               ('identity_assurance.IdDocument', 'time'), ('identity_assurance.UtilityBill', 'date'),
               ('identity_assurance.QES', 'created_at'), ('identity_assurance.VerificationElement', 'time'),
               ('identity_assurance.VerificationElementRequest', 'time')}


def is_time(cname, p):
    return tuple([cname.split('.', 1)[1] if cname.startswith('oidc.') else cname, p]) in TIME_PARAMS


# parameters holding a message: (class name, parameter) -> name of the nested class and the values to put in it
def nested_values(cname, p):
    """plain-dictionary contents for nested parameters and the type they have to come back as"""
    short = cname.split('.')[-1]
    A = 'oidc.AddressClaim'
    addr = [{'country': 'SE'}, {}, {'formatted': 'a=b&c\nd é "q" #?', 'postal_code': '123 45', 'x': 'extra'}]
    claims = [{'given_name': None}, {'a#ja': {'essential': True}, 'b': {'value': 'x=&y'}, 'c': {'values': ['1', '2']}, 'd': None}, {},
              {'e': {}, 'f': {'value': None}, 'g': {'values': []}, 'h': {'value': 0, 'essential': False}, 'i': {'values': [True, 1, 'x', 1.5]}}]
    gen = [{'a': 'b'}, {'address': 'src1', 'x=&': 'é #?', 'n': 1, 'o': {'p': [1, 2]}}, {}]
    issuer = [{'name': 'n', 'country': 'SE'}, {'name': 'a=b&c é', 'country': 'SE', 'x': 'y'}]
    verifier = [{'organization': 'o', 'txn': 't'}, {'organization': 'a=b&', 'txn': 'é #', 'x': 'y'}]
    doc = [{'type': 'idcard', 'number': '1', 'issuer': issuer[0], 'date_of_issuance': ISO[0], 'date_of_expiry': ISO[2]},
           {'type': 'a=b&c', 'number': 'é', 'issuer': issuer[1], 'x': 'y'}]
    prov = [{'name': 'n'}, {}, {'name': 'a=b&', 'country': 'é #', 'x': 'y'}]
    evs = [{'type': 'id_document', 'method': 'pipp', 'verifier': verifier[0], 'document': doc[0]}, {'type': 'qes', 'issuer': 'a=b'}]
    ve = [{'trust_framework': 'de_aml'}, {'trust_framework': 'a=b&é', 'time': ISO[1], 'evidence': evs}]
    table = {
        'claims': ('oidc.ClaimsRequest', [{'userinfo': claims[0]}, {'id_token': claims[1], 'userinfo': claims[0], 'x': {'y': None}}]),
        'userinfo': ('oidc.Claims', claims), 'id_token': ('oidc.Claims', claims), 'address': (A, addr),
        '_claim_names': ('message.Message', gen), '_claim_sources': ('message.Message', gen),
        'issuer': ('oidc.identity_assurance.Issuer', issuer), 'verifier': ('oidc.identity_assurance.Verifier', verifier),
        'document': ('oidc.identity_assurance.Document', doc), 'provider': ('oidc.identity_assurance.Provider', prov),
        'verification': ('oidc.identity_assurance.VerificationElement', ve),
        'links': ('oidc.Link', [[{'rel': 'http://openid.net/specs/connect/1.0/issuer', 'href': 'https://x/?a=b&c'}],
                                [{'rel': 'r', 'titles': {'en': 'é='}, 'properties': {'p': None}}, {'rel': 's', 'x': 'y'}], [{}], [{}, {'rel': 't'}],
                                [{'rel': 't'}, {}, {'href': 'h'}], [{'type': 'y', 'titles': {}}],
                                [{'rel': 't'}, {'rel': 't'}, {'rel': 's'}, {'rel': 't', 'href': 'h'}]]),
        'evidence': ('oidc.identity_assurance.Evidence', [[evs[0]], evs, evs[::-1] + evs, [evs[1], {'type': 'qes', 'issuer': 'b'}, evs[1]], [{}], [{'x': 'y'}, {}]]),
    }
    if short in ('VerifiedClaims', 'VerifiedClaimsRequest') and p == 'claims':
        return ('message.Message', [{'given_name': 'a=b'}, {'birthdate': '1999-01-02', 'x': {'y': [1]}}])
    if short == 'VerifiedClaimsRequest' and p == 'verification':
        return ('message.Message', gen)
    return table.get(p)


JWTS = ['eyJhbGciOiJub25lIn0.eyJpc3MiOiJpIn0.', 'a.b.c']


def is_token(cls, p):
    """parameter declared as message but carrying a JWT (text)"""
    s = cls.c_param[p]
    return p in ('id_token', 'id_token_hint') and kind(s) == 'msg' and s[3] is None


def values(cname, cls, p, small=False):
    """well-typed values for one declared parameter (plain data; nested messages as dictionaries)"""
    s = cls.c_param[p]
    k = kind(s)
    if is_time(cname, p):
        v = ISO
    elif k == 'str':
        v = TEXTS
    elif k == 'int':
        v = INTS
    elif k == 'bool':
        v = [True, False]
    elif k == 'list':
        v = LISTS
    elif k == 'dict':
        v = DICTS
    elif is_token(cls, p):
        v = JWTS
    elif k in ('msg', 'msgs'):
        nv = nested_values(cname, p)
        v = nv[1] if nv else []
    else:
        v = []
    return v[:2] if small else v


def required(cname, cls):
    return {p: values(cname, cls, p, True)[0] for p, s in cls.c_param.items() if s[1] and p != '*'}


def subsets(items):
    items = list(items)
    return itertools.chain.from_iterable(itertools.combinations(items, n) for n in range(len(items) + 1))


def plain(v):
    """a message, deeply, as (type name, plain data)"""
    from oidcmsg.message import Message
    if isinstance(v, Message):
        return ('M', type(v).__name__, tuple((k, plain(x)) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))))
    if isinstance(v, dict):
        return ('D', tuple((k, plain(x)) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))))
    if isinstance(v, (list, tuple)):
        return ('L', tuple(plain(x) for x in v))
    return (type(v).__name__, v)


def contents(cname, cls, tier, kinds=None, extras=EXTRAS):
    """parameter sets of one message type: every parameter x every value, all pairs of parameters x 2 x 2 values,
    language-tagged parameters, undeclared ones alone and beside declared ones, everything at once"""
    req = required(cname, cls)
    params = [p for p in cls.c_param if p != '*' and values(cname, cls, p)]
    if kinds:
        params = [p for p in params if kind(cls.c_param[p]) in kinds]
    yield dict(req)
    for p in params:
        for v in values(cname, cls, p):
            yield dict(req, **{p: v})
        if kind(cls.c_param[p]) == 'str' and not is_time(cname, p):
            for t in ('#ja-Kana-JP', '#en'):
                for v in values(cname, cls, p, tier == 'quick'):
                    yield dict(req, **{p + t: v})
                    yield dict(req, **{p: 'other', p + t: v, p + '#se': 'third'})
        if kind(cls.c_param[p]) in ('str', 'list', 'int', 'bool', 'dict') and not is_time(cname, p):
            for v in values(cname, cls, p, True):
                for t in ('#ja', '#x#y', '#a#b#'):
                    yield dict(req, **{p + t: v})
    n = 2 if tier == 'quick' else 4
    for p, q in itertools.combinations(params, 2):
        for v in values(cname, cls, p)[:n]:
            for w in values(cname, cls, q)[:n]:
                yield dict(req, **{p: v, q: w})
    if tier != 'quick':
        for p, q, r in itertools.combinations(params, 3) if len(params) <= 25 else ():
            yield dict(req, **{x: values(cname, cls, x)[-1] for x in (p, q, r)})
    for i in range(20):
        yield dict(req, **{p: values(cname, cls, p)[i % len(values(cname, cls, p))] for p in params})
        yield dict(req, **{p: values(cname, cls, p)[i % len(values(cname, cls, p))] for p in params[i % 2::2]})
    for k, v in extras:
        yield dict(req, **{k: v})
        for p in params:
            yield dict(req, **{k: v, p: values(cname, cls, p)[0]})
    for (k, v), (l, w) in itertools.combinations(extras, 2):
        yield dict(req, **{k: v, l: w})
    yield dict(req, **dict(extras))
    yield from sizes(req, params, cls)


LONG = 'long text é&=' * 25000


def sizes(req, params, cls):
    """many parameters, long lists, long texts, deep nesting"""
    for n in (150, 1100):
        yield dict(req, **{'x%d' % i: 'v%d' % i for i in range(n)})
    yield dict(req, **{'x' * 3000: 'v'})
    yield dict(req, x_long=LONG)
    yield dict(req, x_many=['i%d' % i for i in range(1500)])
    done = set()
    for p in params:
        k = kind(cls.c_param[p])
        if k in done or p in TIME_NAMES:
            continue
        done.add(k)
        if k == 'str':
            yield dict(req, **{p: LONG})
            yield dict(req, **{'%s#l%d' % (p, i): 'v%d' % i for i in range(300)})
        elif k == 'list':
            yield dict(req, **{p: ['i%d' % i for i in range(1500)]})
            yield dict(req, **{p: ['x' * 70000, 'y']})
        elif k == 'dict':
            d = {}
            for i in range(60):
                d = {'d%d' % i: d, 'l': [d, i]} if i % 3 == 0 and i < 9 else {'d%d' % i: d, 'l': i}
            yield dict(req, **{p: d})
            yield dict(req, **{p: {'k%d' % i: [i] for i in range(1500)}})


TIME_NAMES = {p for c, p in TIME_PARAMS}


def pieces(tier, want=32):
    """class names in `want` groups of similar weight"""
    cs = classes()
    groups = [[0, []] for _ in range(want)]
    for n in sorted(cs, key=lambda x: (-len(cs[x].c_param), x)):
        g = min(groups, key=lambda x: x[0])
        g[0] += (len(cs[n].c_param) + 6) ** 2
        g[1].append(n)
    return [g[1] for g in groups if g[1]]
