"""Verified-claims requests: every member of the schema x all constraint shapes at each place a constraint may stand,
evidence: all subsets of all members x all stated kinds; claims constructors: every class x parameter x value alphabet.
Verdicts are compared with independently written rules."""
import itertools
import json

from mc.kit import ABSENT, product, verdict

TECHNIQUE = 'bounded exhaustive enumeration of request shapes and evidence subsets against reference rules'
LEVEL = 'model_checking'
BOUNDS = {'quick': '8 essential x 9 value x 7 values x 16 purposes for one member per type and place, one-dimensional for all other members; '
                   'all 2^9 evidence subsets x 5 kinds; all constructor parameters x 20 values',
          'thorough': 'the product for every member'}
FLOOR = {'quick': 20000, 'thorough': 150000}

ESS = [ABSENT, True, None, False, 1, 0, 'true', []]
GOOD = {'str': ['x', '', 'é &=', '0'], 'int': [5, 0, -1], 'bool': [True, False]}
BAD = {'str': [5, 0, True, False, [], ['x'], {}, {'a': 'b'}, 1.5], 'int': ['5', '', True, False, [5], {}, 1.5], 'bool': ['true', 0, 1, '', [], {}]}
PURP = [(ABSENT, 1), ('why', 1), ('xx', 0), ('', 0), ('x', 0), ('x' * 300, 1), ('x' * 301, 0), ('a "b" c', 0), ('back\\slash', 0),
        ('[!#$%~]', 1), ('caf\xe9', 0), ('tab\there', 0), (5, 0), (0, 0), (['a', 'b', 'c'], 0), ([], 0), (False, 0), ('   ', 1),
        ('why\n', 0), ('\nwhy', 0), ('why\t', 0), ('why\r\n', 0), (' why', 1), ('why ', 1), ('a ', 0), ('x\x7fyz', 0), ('\x1fabc', 0), ('abc\x00', 0), ('abc\xa0', 0),
        ('~~~', 1), ("don't;,", 1), ('<&/>', 1), ('a b' * 100, 1), (' ' + 'x' * 300, 0), ('x' * 299 + ' ', 1), ('x' * 299 + '\n', 0), ('\u200bwhy', 0), ('\u3000why', 0),
        ('why\u2028', 0), ('wh\u0443', 0), ('ｗhy', 0), ('why "', 0), ('"why', 0), ('why\\', 0), ('\\why', 0)]

CLAIMS = {'name': 'str', 'given_name': 'str', 'family_name': 'str', 'middle_name': 'str', 'nickname': 'str', 'preferred_username': 'str',
          'profile': 'str', 'picture': 'str', 'website': 'str', 'email': 'str', 'email_verified': 'bool', 'gender': 'str', 'birthdate': 'str',
          'zoneinfo': 'str', 'locale': 'str', 'phone_number': 'str', 'phone_number_verified': 'bool', 'updated_at': 'int', 'sub': 'str',
          'nationalities': 'str', 'birth_family_name': 'str', 'birth_given_name': 'str', 'birth_middle_name': 'str', 'salutation': 'str', 'title': 'str'}
VERIF = {'trust_framework': 'str', 'time': 'str', 'verification_process': 'str'}
KINDS = {'id_document': (['method', 'verifier'], ['time', 'document']), 'utility_bill': (['provider'], ['date']),
         'qes': (['issuer', 'serial_number', 'created_at'], [])}
MEMBER = {'method': 'pipp', 'verifier': {'organization': 'o', 'txn': 't'}, 'time': '2012-04-23T18:25:43+0100',
          'document': {'type': 'idcard', 'number': '1', 'issuer': {'name': 'n', 'country': 'SE'}}, 'provider': {'name': 'n', 'country': 'SE'},
          'date': '2013-01-31', 'issuer': 'CA', 'serial_number': '7', 'created_at': '2020-01-11T11:00:00+0100'}


def constraint_ok(c, typ):
    if c is None:
        return True
    e = c.get('essential')
    if not (e is None or e is True or e is False):
        return False

    def right(v):
        return any(v == g and type(v) is type(g) for g in GOOD[typ])
    if 'value' in c and not right(c['value']):
        return False
    if not all(right(v) for v in c.get('values', [])):
        return False
    if 'purpose' in c:
        p = c['purpose']
        return isinstance(p, str) and 3 <= len(p) <= 300 and all(0x20 <= ord(x) < 0x7f and x not in '"\\' for x in p)
    return True


def one_by_one(typ):
    g = GOOD[typ][0]
    yield None
    yield {}
    for e in ESS[1:]:
        yield {'essential': e}
        yield {'essential': e, 'value': g, 'purpose': 'why'}
    for v in GOOD[typ] + BAD[typ]:
        yield {'value': v}
        yield {'value': v, 'essential': True}
        yield {'values': [v]}
        yield {'values': [g, v]}
        yield {'values': [v, g], 'value': g}
        yield {'values': [g, g, v]}
    for n in (4, 5, 8, 9, 10, 16, 17, 33, 65, 129, 257):
        yield {'values': [g] * n}
        for b in BAD[typ][:6]:
            for at in (0, 1, n // 2, n - 2, n - 1):
                yield {'values': [g] * at + [b] + [g] * (n - at - 1)}
    for p, _ in PURP[1:]:
        yield {'purpose': p}
        yield {'essential': False, 'purpose': p}


def full(typ):
    g, b = GOOD[typ], BAD[typ]
    return product({'essential': ESS, 'value': [ABSENT] + g[:3] + b[:5], 'values': [ABSENT, [], g[:1], g[:2], [g[0], b[0]], [b[1]], [b[2], g[0]]],
                    'purpose': [p for p, _ in PURP]})


def shards(tier):
    res = [('claims', m) for m in CLAIMS] + [('verif', m) for m in VERIF] + [('evidence', i) for i in range(5)]
    res += [('mix',)] + [('ctor', i) for i in range(4)] + [('everr',), ('evreq',)]
    return res


def ask(ck, doc, exp, sig):
    from oidcmsg.oidc.identity_assurance import IDAClaimsRequest, VerifiedClaimsRequest
    ck.begin(doc)
    for how in ('object', 'json', 'ida', 'ida json'):
        try:
            if how == 'object':
                m = VerifiedClaimsRequest(**doc)
            elif how == 'json':
                m = VerifiedClaimsRequest().from_json(json.dumps(doc))
            elif how == 'ida':
                m = IDAClaimsRequest(verified_claims=doc, userinfo={'a': None})
            else:
                m = IDAClaimsRequest().from_json(json.dumps({'verified_claims': doc}))
        except Exception as e:
            v = repr(e)
        else:
            v = verdict(m)
        ck.case((how, repr(doc)), 'accepted' if v is True else 'refused')
        ck.expect((v is True) == exp, '%s %s' % (sig, 'accepted' if v is True else 'refused'), '%s: verdict %s, expected %s' % (how, v, exp))
        if exp and doc and v is True and how.startswith('ida'):
            ck.expect(isinstance(m['verified_claims'], VerifiedClaimsRequest), 'type', 'verified_claims is %r' % type(m['verified_claims']))


def evidence_rules(e):
    """(accepted, kinds that may be recorded)"""
    t = e.get('type')
    if t is not None:
        return t in KINDS and all(r in e for r in KINDS[t][0]), [t]
    ks = [k for k, (r, o) in KINDS.items() if all(x in e for x in r + o)]
    return bool(ks), ks


def run(ck, shard):
    from oidcmsg.oidc import identity_assurance as ia
    if shard[0] in ('claims', 'verif'):
        typ = (CLAIMS if shard[0] == 'claims' else VERIF)[shard[1]]
        place = 'claims' if shard[0] == 'claims' else 'verification'
        cs = one_by_one(typ)
        if ck.thorough or shard[1] in ('given_name', 'email_verified', 'updated_at', 'trust_framework'):
            cs = itertools.chain(cs, full(typ))
        for c in cs:
            ok = constraint_ok(c, typ)
            ask(ck, {place: {shard[1]: c}}, ok, place)
        return
    if shard[0] == 'mix':
        cs = [None, {'essential': True}, {'value': 5}, {'essential': 1}, {'purpose': 'xx'}, {'values': ['a', 0]}, {'value': 'x'}]
        for a, b, c in itertools.product(cs, repeat=3):
            ok = all(constraint_ok(x, 'str') for x in (a, b, c))
            ask(ck, {'claims': {'given_name': a, 'title': b, 'unknown': {'essential': 7}}, 'verification': {'trust_framework': c}}, ok, 'mixed')
            ask(ck, {'claims': {'birthdate': c}, 'verification': {'verification_process': a, 'evidence': [{'type': b}]}}, ok, 'mixed')
        for d in ({}, {'claims': None}, {'verification': None, 'claims': None}, {'verification': {}}, {'claims': {}}):
            ask(ck, d, True, 'empty')
        return
    if shard[0] == 'evreq':
        for c in one_by_one('str'):
            ok = constraint_ok(c, 'str')
            for ev in ([{'type': c}], [{'type': None}, {'type': c}], [{'type': c}, {'type': {'value': 'qes'}}], [None, {'type': c, 'method': None}]):
                ask(ck, {'verification': {'evidence': ev}, 'claims': None}, ok, 'evidence member')
            for n in (4, 5, 9, 17, 33):
                for at in (0, n // 2, n - 1):
                    ev = [{'type': {'value': 'qes'}} for _ in range(n)]
                    ev[at] = {'type': c}
                    ask(ck, {'verification': {'evidence': ev}}, ok, 'evidence member')
        ask(ck, {'verification': {'evidence': None, 'time': None}}, True, 'evidence member')
        return
    if shard[0] == 'evidence':
        kind = [None, 'id_document', 'utility_bill', 'qes', 'id_documents'][shard[1]]
        for names in itertools.chain.from_iterable(itertools.combinations(MEMBER, n) for n in range(len(MEMBER) + 1)):
            e = {n: MEMBER[n] for n in names}
            if kind:
                e['type'] = kind
            for how in ('object', 'json', 'nested', 'own class'):
                if how == 'own class' and kind not in KINDS:
                    continue
                ck.begin((how, e))
                if how == 'object':
                    m = ia.Evidence(**e)
                elif how == 'json':
                    m = ia.Evidence().from_json(json.dumps(e))
                elif how == 'own class':
                    m = {'id_document': ia.IdDocument, 'utility_bill': ia.UtilityBill, 'qes': ia.QES}[kind](**e)
                else:
                    if not e:
                        continue
                    m = ia.VerificationElement(trust_framework='t', evidence=[e])['evidence'][0]
                ok, kinds = evidence_rules(e)
                v = verdict(m)
                ck.case((how, repr(e)), 'accepted' if v is True else 'refused')
                if ck.expect((v is True) == ok, 'evidence %s' % ('accepted' if v is True else 'refused'), '%s: verdict %s, expected %s' % (how, v, ok)) and ok:
                    ck.expect(m.get('type') in kinds, 'kind', 'recorded kind %r, expected one of %r' % (m.get('type'), kinds))
                    v = verdict(m)
                    ck.expect(v is True and m.get('type') in kinds, 'again', 'verified again: %s, kind %r' % (v, m.get('type')))
        return
    if shard[0] == 'everr':
        for kind, (r, o) in KINDS.items():
            for n in r + o:
                for bad in (5, True, [1], 1.5):
                    if n in ('time', 'date', 'created_at') and bad == 5 or n in ('time', 'date', 'created_at') and bad == 1.5:
                        continue
                    if isinstance(MEMBER[n], dict) and bad == [1]:
                        pass
                    e = {x: MEMBER[x] for x in r + o}
                    e[n] = bad
                    for t in (kind, None):
                        if t:
                            e['type'] = t
                        ck.begin(e)
                        try:
                            v = verdict(ia.Evidence(**e))
                        except Exception as x:
                            v = repr(x)
                        ck.case(('everr', repr(e)), 'accepted' if v is True else 'refused')
                        ck.expect(v is not True, 'wrongly typed evidence member accepted', 'accepted %r' % e)
        return
    # constructors
    from mc import alpha
    from oidcmsg.message import Message
    cls = alpha.classes()
    names = sorted(n for n in cls if n.startswith('oidc.'))[shard[1]::4]
    vals = ['x', '', 5, 0, -1, True, False, 1.5, [], ['x'], {}, {'a': 'b'}, {'essential': True}, None, b'x', ('x',), Message(a='b')]
    for n in names:
        c = cls[n]
        for p, spec in list(c.c_param.items()) + [('unknown', None)]:
            k = alpha.kind(spec) if spec else None
            for how in ('class', 'instance', 'name'):
                for v in vals + ['ctor same', 'ctor other']:
                    cc = ia.ClaimsConstructor({'class': c, 'instance': c(), 'name': c.__module__ + '.' + c.__name__}[how])
                    isctor = isinstance(v, str) and v.startswith('ctor')
                    if isctor:
                        t = spec[0] if spec and isinstance(spec[0], type) and issubclass(spec[0], Message) else None
                        if v == 'ctor same':
                            v = ia.ClaimsConstructor(t or Message)
                            exp = t is not None or spec is None
                        else:
                            if t is Message or t is None:
                                continue
                            v = ia.ClaimsConstructor(ia.PlaceOfBirth if t is not ia.PlaceOfBirth else ia.Verifier)
                            exp = False
                        v['zz'] = 'q'
                    elif v is None or spec is None:
                        exp = True
                    elif k == 'str':
                        exp = isinstance(v, str)
                    elif k == 'int':
                        exp = isinstance(v, int) and not isinstance(v, bool)
                    elif k == 'bool':
                        exp = isinstance(v, bool)
                    elif k == 'dict':
                        exp = isinstance(v, dict)
                    elif k == 'msg':
                        exp = isinstance(v, spec[0])
                    else:
                        exp = 'no' if not isinstance(v, list) else 'maybe'
                    ck.begin((n, p, how, v))
                    try:
                        cc[p] = v
                        got = True
                    except Exception:
                        got = False
                    ck.case((n, p, how, repr(v)[:40] if not isctor else ('ctor', exp)), 'taken' if got else 'not taken')
                    if exp == 'maybe':
                        continue
                    exp = exp is True
                    ck.expect(got == exp, 'constructor %s' % ('takes' if got else 'refuses'), '%s[%s] = %r' % (n, p, v))
                    d = cc.to_dict()
                    if got:
                        want = v.to_dict() if isctor else v
                        ck.expect(d == {p: want}, 'constructor content', 'got %r, expected %r' % (d, {p: want}))
                        if not isinstance(v, (bytes, Message)):
                            ck.expect(json.loads(cc.to_json()) == json.loads(json.dumps({p: want})), 'constructor json', cc.to_json())
                    else:
                        ck.expect(d == {}, 'refused value kept', 'constructor holds %r' % d)
