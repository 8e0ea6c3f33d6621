"""Message types an application defines: every ordered pair of the documented parameter templates x parent type x default x
permitted values x every combination of values, blanks and absence; every template as the wildcard; chains of three
types. Construction, verdicts and the dictionary, JSON and form round trips are compared with a reference that only knows
the declaration; the parents are looked at again afterwards."""
import importlib
import itertools
import json

from mc import alpha
from mc.checks.c01 import nested_types, strict, text_of
from mc.checks.c02 import js, pairs
from mc.kit import ABSENT, product, verdict

TECHNIQUE = 'bounded exhaustive enumeration of message type declarations and contents against a reference model'
LEVEL = 'model_checking'
BOUNDS = {'quick': '30 x 30 templates x 3 parents x default x permitted values x up to 9 x 4 values x 5 transports; 18 wildcard templates; chains of 3 types',
          'thorough': 'up to 9 x 9 values; third parameter'}
FLOOR = {'quick': 100000, 'thorough': 300000}

TEMPLATES = [('SINGLE_OPTIONAL_STRING', 'str', False), ('SINGLE_REQUIRED_STRING', 'str', True), ('SINGLE_OPTIONAL_INT', 'int', False), ('SINGLE_REQUIRED_INT', 'int', True),
             ('OPTIONAL_LIST_OF_STRINGS', 'list', False), ('REQUIRED_LIST_OF_STRINGS', 'list', True), ('OPTIONAL_LIST_OF_SP_SEP_STRINGS', 'list', False),
             ('REQUIRED_LIST_OF_SP_SEP_STRINGS', 'list', True), ('SINGLE_OPTIONAL_JSON', 'dict', False), ('SINGLE_REQUIRED_JSON', 'dict', True), ('OPTIONAL_MESSAGE', 'msg', False),
             ('REQUIRED_MESSAGE', 'msg', True), ('OPTIONAL_LIST_OF_MESSAGES', 'msgs', False), ('SINGLE_REQUIRED_BOOLEAN', 'bool', True),
             ('own', 'msg', True), ('own list', 'msgs', False),
             ('own list, general reader', 'msgs', True), ('oidc.SINGLE_OPTIONAL_BOOLEAN', 'bool', False), ('oidc.OPTIONAL_ADDRESS', 'msg', False),
             ('oidc.identity_assurance.SINGLE_OPTIONAL_PLACE_OF_BIRTH', 'place', False), ('oidc.identity_assurance.REQUIRED_UTILITY_BILL', 'bill', True),
             ('oidc.identity_assurance.OPTIONAL_QES', 'qes', False), ('oidc.identity_assurance.OPTIONAL_ID_DOCUMENT', 'document', False),
             ('oidc.SINGLE_OPTIONAL_CLAIMSREQ', 'request', False), ('oidc.SINGLE_OPTIONAL_DICT', 'dict', False), ('oidc.OPTIONAL_MULTIPLE_Claims', 'claims', False),
             ('oidc.SINGLE_OPTIONAL_JWT', 'token', False), ('plain list', 'many', False), ('nullable', 'str', True), ('nullable optional', 'str', False)]
# the types these hold
INNER = {'place': 'PlaceOfBirth', 'bill': 'UtilityBill', 'qes': 'QES', 'document': 'IdDocument', 'request': 'ClaimsRequest', 'claims': 'Claims', 'token': 'JsonWebToken'}
VALUES = {'str': ['a', 'é&=+ #%41', '1', '{"a": 1}', ' ', '["a", "b"]'], 'int': [0, 1, -1, 10 ** 20], 'bool': [True, False],
          'list': [['a'], ['a', 'b'], ['b', 'a', 'a'], ['é&=+', 'x#', '{}']],
           'many': [['a'], ['a b', 'a b', '["é&=+"]'], [' ', '#', 'x' * 200]],
          'dict': [{'a': 1}, {'a': {'b': [1, None, 'é&=']}, 'c': False}, {'a': 'b=c&d'}],
          'msg': [{'a': 'b'}, {'a': 'b=c&d é', 'c': {'d': [1, None]}}, {'a': '1', 'n': 5, 't': True, 'x y': 'z'}],
          'place': [{'country': 'SE', 'locality': 'é&= +'}, {'country': 'UK', 'locality': 'x', 'region': 'b=c&d'}],
         'bill': [{'provider': {'name': 'é=&'}}, {'type': 'utility_bill', 'provider': {'name': 'n', 'street_address': 'a\nb', 'x': '1'}}],
         'qes': [{'issuer': 'é&', 'serial_number': '1', 'created_at': 'x'}], 'document': [{'method': 'm', 'verifier': {'organization': 'é&=', 'txn': '1'}}],
         'request': [{'userinfo': {'sub': {'value': 'é&='}}}, {'id_token': {'auth_time': {'essential': True}}, 'x': 'y'}],
         'claims': [{'sub': {'value': 'é&='}, 'x': None}], 'token': [{'iss': 'é&=', 'aud': ['a', 'b'], 'exp': 5}],
         'msgs': [[{'a': 'b'}], [{'a': 'b'}, {'a': 'b=c&d é'}], [{'a': 'b'}, {'a': 'b'}, {'a': 'b', 'x y': {'z': []}}]]}
BLANK = {'str': [None, ''], 'int': [None], 'bool': [None], 'list': [[]], 'many': [[]], 'dict': [None, {}], 'msg': [None], 'msgs': [[]], **{k: [None] for k in INNER}}
ALLOWED = {'str': ['a', '1'], 'int': [-1, 1], 'list': ['a', 'b']}
DEFAULT = {'str': 'b c', 'int': 7, 'bool': False, 'list': ['d', 'e'], 'many': ['d', 'e'], 'dict': {'d': [1]}, 'msg': None, 'msgs': None, **{k: None for k in INNER}}
WRONG = {'str': [5, True, {'a': 1}, ['a', 'b'], 1.5], 'int': ['x', True, {'a': 1}, [1], '1 2'], 'bool': ['true', 1, 0, 'x', {}], 'list': [5, True, {'a': 1}, ['a', 5], [5]], 'many': [5, True, {'a': 1}, ['a', 5], [5], 1.5],
         'dict': ['x', '[1', 5, True, '[1]', '5', '"x"', [1], 1.5], 'msg': [5, True, 1.5], 'msgs': [5, True, 'x', [5], ['a']], **{k: [5, True, 1.5, 'x', [{'country': 'SE', 'locality': 'U'}]] for k in INNER}}


def spec(name):
    import oidcmsg.message as M
    from oidcmsg.message import Message

    if name.startswith('oidc.'):
        mod, _, name = name.rpartition('.')
        return getattr(importlib.import_module('oidcmsg.' + mod), name)
    if name == 'plain list':
        return [str], False, None, None, False
    if name.startswith('nullable'):
        return str, name == 'nullable', None, None, True
    if not name.startswith('own'):
        return getattr(M, name)

    class Inner(Message):
        c_param = {'a': M.SINGLE_REQUIRED_STRING, 'n': M.SINGLE_OPTIONAL_INT}

    def deser(val, sformat='urlencoded'):
        if isinstance(val, Message):
            return val
        if sformat in ('dict', 'json') and not isinstance(val, str):
            val, sformat = json.dumps(val), 'json'
        return Inner().deserialize(val, sformat)

    def list_deser(val, sformat='urlencoded', lev=0):
        return [deser(v, sformat) for v in val]
    if name == 'own':
        return Inner, True, M.msg_ser, deser, False
    if name != 'own list':
        return [Inner], True, M.msg_list_ser, M.msg_list_deser, False
    return [Inner], False, M.msg_list_ser, list_deser, False


def parents():
    from oidcmsg import oauth2, oidc
    from oidcmsg.message import Message
    return [Message, oauth2.ResponseMessage, oidc.ProviderConfigurationResponse]


def shards(tier):
    return [('pair', i, p) for i in range(len(TEMPLATES)) for p in range(3)] + [('wild',), ('chain',)]


def blank(v):
    return v is ABSENT or v is None or v == '' or v == [] or v == {}


def ref_verdict(kind, req, allowed, v):
    if blank(v):
        return not req
    if allowed:
        return all(x in allowed for x in v) if kind == 'list' else v in allowed
    return True


def declare(parent, params, default=None, allowed=None):
    class App(parent):
        c_param = parent.c_param.copy()
        c_param.update(params)
        c_default = dict(default or {})
        c_allowed_values = dict(allowed or {})
        if parent.__name__ == 'ProviderConfigurationResponse':
            def verify(self, **kwargs):
                super(parent, self).verify(**kwargs)
                return True
    return App


def run(ck, shard):
    from oidcmsg.message import Message
    ps = parents()
    before = [(dict(c.c_param), repr(c.c_default), repr(c.c_allowed_values)) for c in ps + [Message]]
    if shard[0] == 'pair':
        pair(ck, TEMPLATES[shard[1]], ps[shard[2]], shard[2])
    elif shard[0] == 'wild':
        wild(ck)
    else:
        chain(ck)
    after = [(dict(c.c_param), repr(c.c_default), repr(c.c_allowed_values)) for c in ps + [Message]]
    ck.expect(before == after, 'parent', 'the type extended has changed')


def pair(ck, ta, parent, pno):
    from oidcmsg.oidc import ProviderConfigurationResponse
    req = {}
    if parent is ProviderConfigurationResponse:
        req = {k: v for k, v in alpha.required('oidc.ProviderConfigurationResponse', parent).items()}
    na, ka, ra = ta
    for n, (nb, kb, rb) in enumerate(TEMPLATES):
        for with_default, with_allowed in itertools.product((False, True), repeat=2):
            if with_default and DEFAULT[kb] is None or with_allowed and ka not in ALLOWED:
                continue
            default = {'q': DEFAULT[kb]} if with_default else {}
            allowed = {'p': ALLOWED[ka]} if with_allowed else {}
            cls = declare(parent, {'p': spec(na), 'q': spec(nb)}, default, allowed)
            qs = [ABSENT] + VALUES[kb][-2:] + BLANK[kb][:1] if not ck.thorough else [ABSENT] + VALUES[kb] + BLANK[kb]
            for kw in product({'p': [ABSENT] + VALUES[ka] + BLANK[ka], 'q': qs, 'x': [ABSENT, 'x y'] if n % 4 == pno else [ABSENT]}):
                ck.begin((na, nb, parent.__name__, default, allowed, kw))
                held = dict(default)
                held.update(req)
                held.update({k: v for k, v in kw.items() if v != '' and not (v == [] and k in 'pq')})
                one(ck, cls, dict(req, **kw), held, {'p': (ka, ra, allowed.get('p')), 'q': (kb, rb, None)}, (na, nb, pno, bool(default), bool(allowed)))
            if with_default or with_allowed:
                continue
            e = cls(set_defaults=False)
            known = set(parent.c_param) | {'p', 'q'}
            ck.expect(set(e.parameters()) == known and len(e.parameters()) == len(known), 'parameters', lambda: '%r' % e.parameters())
            ck.expect(set(e.required_parameters()) == {k for k, x in parent.c_param.items() if x[1]} | {k for k, r in (('p', ra), ('q', rb)) if r}, 'required parameters', lambda: '%r' % e.required_parameters())
            ck.expect(e.value_type('p') == cls.c_param['p'][0] and e.value_type('q') == cls.c_param['q'][0] and e.value_type('nope') is None, 'value type', lambda: '%r' % e.value_type('p'))
            if ka in ('many', 'msgs'):
                # one value instead of a list of one
                for v in VALUES[ka][0]:
                    for way in ('new', 'set'):
                        ck.begin((na, nb, parent.__name__, 'single', v, way))
                        typ = cls.c_param['p'][0][0]
                        w = v if ka == 'many' else typ(**v)
                        m = cls(**dict(req, **({'p': w} if way == 'new' else {})))
                        if way == 'set':
                            m['p'] = w
                        ck.case((na, nb, pno, 'single', way), 'single')
                        ck.expect(m.get('p') == [w], 'single %s' % na, lambda: '%r given, holds %r' % (w, m.get('p')))
            for w in WRONG[ka]:
                for way in ('new', 'set', 'json'):
                    ck.begin((na, nb, parent.__name__, 'wrong', w, way))
                    try:
                        if way == 'new':
                            m = cls(**dict(req, p=w))
                        elif way == 'json':
                            m = cls().from_json(json.dumps({'p': w}))
                        else:
                            m = cls(**req)
                            m['p'] = w
                        r = 'p' in m and m['p'] == w and type(m['p']) is type(w)
                    except Exception:
                        r = False
                    ck.case((na, nb, pno, repr(w), way), 'taken' if r else 'not taken')
                    ck.expect(not r, 'wrong type %s' % na, '%r taken for %s' % (w, na))


def one(ck, cls, kw, held, rules, key):
    try:
        m = cls(**kw)
    except Exception as e:
        ck.fail('construction %s' % key[0], repr(e))
        return
    now = text_of(m)
    for n, t in zip('pq', key):
        if (t.startswith('own') or rules[n][0] in INNER) and m.get(n):
            k = sorted({type(x).__name__ for x in (m[n] if isinstance(m[n], list) else [m[n]])})
            declared = INNER.get(rules[n][0], 'Inner')
            ck.expect(k == [declared], 'kind %s' % t, 'holds %r, declared %s' % (k, declared))
    ck.expect(strict(now, held), 'content %s %s' % key[:2], lambda: 'holds %r, given %r' % (now, held))
    exp = all(ref_verdict(k, r, a, held.get(n, ABSENT)) for n, (k, r, a) in rules.items())
    v = verdict(m)
    ck.case((key, repr(kw)), 'accepted' if v is True else 'refused')
    ck.expect((v is True) == exp, 'verdict %s %s' % key[:2], 'verdict %s, expected %s' % (v, exp))
    before, kinds = alpha.plain(m), nested_types(m)
    for how in ('dict', 'json', 'form'):
        if how == 'form' and any(str(t).startswith('nullable') for t in key[:2]) and None in held.values():
            continue        # a form has no null
        complete = all(not r or n in held for n, (k, r, a) in rules.items())
        try:
            doc = m.to_dict() if how == 'dict' else m.to_json() if how == 'json' else m.to_urlencoded()
        except Exception as e:
            ck.expect(how == 'form' and not complete, '%s %s %s' % (how, key[0], key[1]), repr(e))
            continue
        ck.expect(alpha.plain(m) == before, 'changed', 'serialising changed the message')
        if how == 'form':
            ck.expect(complete, 'incomplete form %s %s' % key[:2], 'encoded %r without a required parameter' % doc)
            if not complete:
                continue
            back, form = form_of(held, rules, cls)
            got = pairs(doc)
            for k, f in list(form.items()):
                if f[0] == 'many':
                    ck.expect([t for n, t in got if n == k] == f[1], 'form %s %s' % key[:2], lambda: 'form %r, expected %r' % (got, form))
                    got = [x for x in got if x[0] != k]
                    del form[k]
            ck.expect(len(got) == len(form) and all(k in form and (form[k] == t or isinstance(form[k], tuple) and js(t) == form[k][1]) for k, t in got),
                      'form %s %s' % key[:2], lambda: 'form %r, expected %r' % (got, form))
        else:
            back = held
        try:
            e = cls(set_defaults=False)
            b = e.from_dict(doc) if how == 'dict' else e.from_json(doc) if how == 'json' else e.from_urlencoded(doc)
        except Exception as ex:
            ck.fail('parse %s %s %s' % (how, key[0], key[1]), '%r: %r' % (doc, ex))
            continue
        ck.case((key, repr(kw), how), how)
        ck.expect(strict(text_of(b), back), '%s round trip %s %s' % (how, key[0], key[1]), lambda: 'from %r: %r, expected %r' % (doc, text_of(b), back))
        if how != 'form':
            ck.expect(b == m and nested_types(b) == kinds, '%s equality %s %s' % (how, key[0], key[1]), lambda: '%r and %r' % (before, alpha.plain(b)))
        if how != 'form' or not (rules['p'][0] == 'int' and rules['p'][2]):
            w = verdict(b)
            ck.expect((w is True) == exp, '%s verdict %s %s' % (how, key[0], key[1]), 'verdict %s, expected %s' % (w, exp))


def form_of(held, rules, cls):
    back, form = {}, {}
    for k, v in held.items():
        kd = rules[k][0] if k in rules else alpha.kind(cls.c_param[k]) if k in cls.c_param else 'str'
        if v is None:
            continue
        if kd in ('str', 'int', 'bool'):
            back[k] = form[k] = str(v)
        elif kd == 'list':
            back[k], form[k] = v, ' '.join(v)
        elif kd == 'many':
            back[k], form[k] = v, ('many', v)
        else:
            back[k], form[k] = v, ('json', v)
    return back, form


def wild(ck):
    """parameters nobody declared follow the wildcard"""
    from oidcmsg.message import Message
    import oidcmsg.message as M
    for name, kind, req in TEMPLATES:
        if req:
            continue
        for n, order, pr in itertools.product((1, 2), (0, 1), (0, 1)):
            p = {'p': M.SINGLE_REQUIRED_STRING if pr else M.SINGLE_OPTIONAL_STRING}
            cls = declare(Message, {'*': spec(name), **p} if order else {**p, '*': spec(name)})
            for vs in itertools.product(VALUES[kind] + [None] * (kind not in ('list', 'msgs')), repeat=n):
                for p in (ABSENT, 'é='):
                    held = {'x%d' % i: v for i, v in enumerate(vs)}
                    if p is not ABSENT:
                        held['p'] = p
                    ck.begin(('wild', name, held))
                    rules = {k: (kind, False, None) for k in held}
                    rules['p'] = ('str', bool(pr), None)
                    rules['q'] = ('str', False, None)
                    one(ck, cls, dict(held), held, rules, ('wild', name, n, order, pr))
        for w in WRONG[kind]:
            ck.begin(('wild wrong', name, w))
            try:
                m = cls(x=w)
                r = 'x' in m and m['x'] == w and type(m['x']) is type(w)
            except Exception:
                r = False
            ck.case(('wild wrong', name, repr(w)), 'taken' if r else 'not taken')
            ck.expect(not r, 'wrong type wild %s' % name, '%r taken for %s' % (w, name))


def chain(ck):
    """grandparent, parent and child: each adds, tightens or loosens one parameter and has a rule of its own"""
    import oidcmsg.message as M
    from oidcmsg.oauth2 import ResponseMessage
    for (n1, k1, r1), (n2, k2, r2) in itertools.product(TEMPLATES, repeat=2):
        if k1 != k2:
            continue
        for parent in (M.Message, ResponseMessage):
            calls = []

            class A(parent):
                c_param = parent.c_param.copy()
                c_param.update({'p': spec(n1)})

                def verify(self, **kwargs):
                    super(A, self).verify(**kwargs)
                    calls.append('A')
                    return True

            class B(A):
                c_param = A.c_param.copy()
                c_param.update({'status': M.SINGLE_REQUIRED_INT})

                def verify(self, **kwargs):
                    super(B, self).verify(**kwargs)
                    calls.append('B')
                    if not 200 <= self['status'] <= 600:
                        raise ValueError('status outside allowed value space')

            class C(B):
                c_param = B.c_param.copy()
                c_param.update({'p': spec(n2)})
            for cls, req in ((A, r1), (B, r1), (C, r2)):
                for kw in product({'p': [ABSENT] + VALUES[k1][:2], 'status': [ABSENT, 0, 199, 200, 600, 601], 'error_description': [ABSENT, 'fine', 'not\x01fine']}):
                    for how in ('object', 'json'):
                        ck.begin((n1, n2, parent.__name__, cls.__name__, kw, how))
                        m = cls(**kw) if how == 'object' else cls().from_json(json.dumps(kw))
                        del calls[:]
                        try:
                            m.verify()
                            v = True
                        except Exception as e:
                            v = type(e).__name__
                        exp = ref_verdict(k1, req, None, kw.get('p', ABSENT)) and not (parent is ResponseMessage and kw.get('error_description') == 'not\x01fine')
                        if cls is not A:
                            exp = exp and kw.get('status') in (200, 600)
                        ck.case((n1, n2, parent.__name__, cls.__name__, repr(kw), how), 'accepted' if v is True else 'refused')
                        ck.expect((v is True) == exp, 'chain %s' % cls.__name__, 'verdict %s, expected %s' % (v, exp))
                        if exp:
                            ck.expect(calls == (['A'] if cls is A else ['A', 'B']), 'chain calls', '%r' % calls)
