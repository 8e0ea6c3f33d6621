"""All claims-request entries over the members {essential, value, values, another member} in every order x all claim values
of the alphabet through claims_match; all claims requests over these entries through every serialisation, alone and inside
an authorization request, with every entry compared before and after."""
import itertools

from mc.kit import sign, keyjar

TECHNIQUE = 'bounded exhaustive enumeration of claims-request entries and values against a reference'
LEVEL = 'model_checking'
BOUNDS = {'quick': 'entries over 2 essential x 7 value x 6 values x other in every order; 12 claim values; claims requests of <= 2 claims',
          'thorough': 'claims requests of <= 3 claims'}
FLOOR = {'quick': 10000, 'thorough': 30000}

VALUES = ['a', 'b', 'A', 'ab', '', 'é&=', 7, 8, ['a'], ['a', 'b'], {'x': 1}, 2.5, '7', '2.5', "['a']", 'True', 'None', None, True, False, 'é&= ', 'É&=', 'a b', [], {}, 'a' * 300, -7, '07', [7], ['7'], ' a', {'x': '1'}, {'x': 1, 'y': 2}]
ESS = [True, False]
VAL = ['a', 'ab', 'é&=', 7, ['a'], {'x': 1}, '', '7', None, True, 'a' * 300]
VALS = [['a'], ['b', 'a'], ['ab', 'c'], [7, 8], [['a'], 'z'], [], ['A', 'é&=', ''], ['7', '2.5'], ["['a']", 'True', 'None'], [None, True], list('cdefghijklmnop') + ['a' * 300], [{'x': 1}, {}], [2.5, [7]]]


def entries():
    yield None
    opts = [('essential', ESS), ('value', VAL), ('values', VALS), ('purpose', ['why'])]
    for names in itertools.chain.from_iterable(itertools.combinations(range(4), n) for n in range(5)):
        for combo in itertools.product(*[opts[i][1] for i in names]):
            pairs = [(opts[i][0], v) for i, v in zip(names, combo)]
            for perm in itertools.permutations(pairs):
                yield dict(perm)


def ref(value, spec):
    if spec is None or not ({'value', 'values'} & set(spec)):
        return True
    if 'value' in spec and spec['value'] == value:
        return True
    return 'values' in spec and any(x == value for x in spec['values'])


def shards(tier):
    return [('match', i) for i in range(len(VALUES))] + [('trip', i) for i in range(6)]


def same(got, want):
    """entries of a parsed Claims message against the plain dictionary, insisting on the claim names and their nulls"""
    d = got.to_dict() if hasattr(got, 'to_dict') else got
    return d == want and set(got.keys()) == set(want.keys())


def run(ck, shard):
    from oidcmsg.oidc import AuthorizationRequest, Claims, ClaimsRequest, claims_match
    ent = list(entries())
    if shard[0] == 'match':
        v = VALUES[shard[1]]
        for s in ent:
            ck.begin((v, s))
            s0 = repr(s)
            try:
                r = claims_match(v, s)
            except Exception as e:
                r = repr(e)
            e = ref(v, s)
            ck.case((repr(v), s0), 'match' if r is True else 'no match')
            ck.expect(bool(r) == e and not isinstance(r, str), 'match' if r else 'no match', 'claims_match(%r, %r) = %r, expected %r' % (v, s, r, e))
            ck.expect(repr(s) == s0, 'entry changed', 'the entry was modified: %r' % s)
        return
    simple = [None, {'essential': True}, {'essential': False}, {'value': 'a b'}, {'value': 'é&=#%+'}, {'values': ['a', 'b']}, {'values': ['urn:x:1 y', '&=']},
              {'essential': True, 'value': 7}, {'essential': True, 'values': [1, 2]}, {'value': None, 'essential': True}, {}]
    names = ['given_name', 'name#ja-Kana-JP', 'http://example.info/claims/groups?a=b&c', 'é']
    reqs = []
    for e in ent:
        if e is None or list(e) == sorted(e):
            reqs.append({'given_name': e})
    for n1, n2 in itertools.combinations(names, 2):
        for a, b in itertools.product(simple, repeat=2):
            reqs.append({n1: a, n2: b})
    if ck.thorough:
        for a, b, c in itertools.product(simple, repeat=3):
            reqs.append({names[0]: a, names[1]: b, names[2]: c})
    reqs = reqs[shard[1]::6]
    kj = keyjar(client_1=['oct_rp'], own=['oct_rp'])
    for n, c in enumerate(reqs):
        for members in (('userinfo',), ('id_token',), ('userinfo', 'id_token')):
            doc = {m: c for m in members}
            ck.begin(doc)
            cr = ClaimsRequest(**doc)
            full = {'claims': cr, 'response_type': 'code', 'client_id': 'client_1', 'redirect_uri': 'https://rp/', 'scope': 'openid'}
            areq = AuthorizationRequest(**full)
            asdict = AuthorizationRequest(**dict(full, claims=doc))
            outs = {
                'object': cr, 'dict': ClaimsRequest().from_dict(cr.to_dict()), 'json': ClaimsRequest().from_json(cr.to_json()),
                'form': ClaimsRequest().from_urlencoded(cr.to_urlencoded()),
                'request': areq['claims'], 'request dict': AuthorizationRequest().from_dict(areq.to_dict())['claims'],
                'request json': AuthorizationRequest().from_json(areq.to_json())['claims'],
                'request form': AuthorizationRequest().from_urlencoded(areq.to_urlencoded())['claims'],
                'given as dict': asdict['claims'],
                'given as dict, form': AuthorizationRequest().from_urlencoded(asdict.to_urlencoded())['claims'],
                'form twice': AuthorizationRequest().from_urlencoded(AuthorizationRequest().from_urlencoded(areq.to_urlencoded()).to_urlencoded())['claims'],
                'verified': None}
            m = AuthorizationRequest().from_urlencoded(areq.to_urlencoded())
            try:
                m.verify(keyjar=kj)
            except Exception as e:
                ck.fail('verify', repr(e))
            outs['verified'] = m['claims']
            if n % 4 == 0:
                tok = sign(areq.to_dict(), 'oct_rp', 'HS256')
                outs['jwt'] = AuthorizationRequest().from_jwt(tok, keyjar=keyjar(own=['oct_rp']))['claims']
            for how, got in outs.items():
                ck.case((repr(doc), how), how)
                if not ck.expect(isinstance(got, ClaimsRequest) and set(got.keys()) == set(members), 'kind ' + how, lambda: 'got %r' % (got,)):
                    continue
                for mem in members:
                    ck.expect(isinstance(got[mem], Claims) and same(got[mem], c), 'claims ' + how,
                              lambda: '%s: %r became %r' % (how, c, got[mem].to_dict() if hasattr(got[mem], 'to_dict') else got[mem]))
