"""Full product of named and expected client, issuer and audience over the plain OAuth2 and the OpenID authorization
response, as object, via dict, JSON and form encoding; verdict compared with the statement's decision table."""
import itertools

from mc.kit import lists_of, near

TECHNIQUE = 'bounded exhaustive enumeration of message/expectation products against a decision table'
LEVEL = 'model_checking'
BOUNDS = {'quick': '11 clients x 12 issuers (named) x expected x 18 audiences x 4 transports; accepted and refused contents beside every other parameter',
          'thorough': 'the same with all expected values'}
FLOOR = {'quick': 10000, 'thorough': 100000}

CLIENTS = [None, 'client_1', 'client_10', 'client_', 'lient_1', 'CLIENT_1', 'client_1 ', '1', '0', 'é&=', 'https://rp.example.com/']
ISSUERS = [None, 'https://op.example.com', 'https://op.example.com/', 'https://op.example.co', 'https://OP.example.com',
           'http://op.example.com', 'op.example.com', 'https://op.example.com:443', 'https://op.example.com?x=1', 'x']


def auds():
    yield None
    for c in CLIENTS[1:]:
        yield c
        yield [c]
    yield ['client_1', 'client_10']
    yield ['other', 'client_1']
    yield ['other', 'é&=', 'x']
    yield ['client_10', 'client_']
    yield ['other', None]
    yield ['client_1', None]


def shards(tier):
    return [('beside',)] + [(m, t) for m in ('oauth2', 'oidc') for t in ('object', 'dict', 'json', 'form')] + [('near', m) for m in ('oauth2', 'oidc')]


def make(cls, kw, how):
    m = cls(**kw)
    if how == 'object':
        return m
    if how == 'dict':
        return cls().from_dict(m.to_dict())
    if how == 'json':
        return cls().from_json(m.to_json())
    return cls().from_urlencoded(m.to_urlencoded())


def nearly(ck, name, cls):
    """values that are almost the expected ones, and long audiences"""
    me, op = 'Client_1/é', 'https://op.example.com'
    cases = []
    for x in [me] + near(me):
        cases += [({'client_id': x}, {'client_id': me}), ({'client_id': me}, {'client_id': x}), ({'client_id': x}, {'client_id': x})]
        if name == 'oidc':
            cases += [({'aud': a}, {'client_id': e}) for a in (x, [x], ['o', x]) for e in (me, x)]
    for x in [op] + near(op):
        cases += [({'iss': x, 'client_id': me}, {'iss': op, 'client_id': me}), ({'iss': op}, {'iss': x}), ({'iss': x}, {'iss': x})]
    if name == 'oidc':
        cases += [({'aud': l}, {'client_id': me}) for _, l in lists_of(me)]
    for kw, args in cases:
        al = kw.get('aud', [args.get('client_id')])
        al = al if isinstance(al, list) else [al]
        ok = kw.get('client_id', args.get('client_id')) == args.get('client_id') and kw.get('iss', args.get('iss')) == args.get('iss') and \
            args.get('client_id') in al
        for how in ('object', 'json', 'form'):
            ck.begin((name, how, kw, args))
            m = make(cls, dict(kw, code='c', state='s'), how)
            try:
                why = res = bool(m.verify(**args))
            except Exception as e:
                res, why = False, repr(e)
            ck.case((name, how, repr(kw), repr(args)), 'accepted' if res else 'refused')
            ck.expect(res == ok, '%s %s nearly' % (name, 'accepts' if res else 'refuses'), 'verdict %r, expected %r' % (why, ok))


def run(ck, shard):
    if shard[0] == 'beside':
        from mc import bystanders
        return bystanders.run(ck, 'C15')
    from oidcmsg import oauth2
    from oidcmsg import oidc
    if shard[0] == 'near':
        return nearly(ck, shard[1], {'oauth2': oauth2, 'oidc': oidc}[shard[1]].AuthorizationResponse)
    name, how = shard
    cls = {'oauth2': oauth2, 'oidc': oidc}[name].AuthorizationResponse
    exp_c = CLIENTS + [''] if ck.thorough else [None, 'client_1', 'client_10', 'é&=', '']
    exp_i = ISSUERS + [''] if ck.thorough else [None, ISSUERS[1], ISSUERS[2], '']
    aud_list = list(auds()) if name == 'oidc' else [None, 'client_10']
    for c, i, aud in itertools.product(CLIENTS, ISSUERS, aud_list):
        if aud is not None and not ck.thorough and i not in ISSUERS[:3]:
            continue
        if isinstance(aud, list) and None in aud and how not in ('object', 'dict', 'json'):
            continue            # a form has no null
        kw = {'code': 'c', 'state': 's'}
        for k, v in (('client_id', c), ('iss', i), ('aud', aud)):
            if v is not None:
                kw[k] = v
        for ec, ei in itertools.product(exp_c, exp_i):
            args = {}
            if ec is not None:
                args['client_id'] = ec
            if ei is not None:
                args['iss'] = ei
            ck.begin((name, how, kw, args))
            ok = not (c is not None and ec is not None and c != ec) and \
                not (i is not None and ei is not None and i != ei)
            if name == 'oidc' and aud is not None and ec is not None:
                al = aud if isinstance(aud, list) else [aud]
                ok = ok and ec in al
            m = make(cls, kw, how)
            try:
                res = bool(m.verify(**args))
                why = res
            except Exception as e:
                res, why = False, repr(e)
            ck.case((name, how, repr(kw), repr(args)), 'accepted' if res else 'refused')
            ck.expect(res == ok, '%s %s' % (name, 'accepts' if res else 'refuses'),
                      'verdict %r, expected %r' % (why, ok))
