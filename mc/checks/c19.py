"""Full product over everything the discovery rules mention (two sub-products in the quick tier), every ASCII and many
other characters in scopes, directly and after JSON transport; verdicts are compared with a decision table."""
from mc.kit import ABSENT, product, transport, verdict

TECHNIQUE = 'bounded exhaustive enumeration of metadata products against a decision table'
LEVEL = 'model_checking'
BOUNDS = {'quick': '14 issuers x http settings x 8 scope lists x 6 algorithm lists x 11 response type lists x endpoints; every character 0-0x17f in a scope; accepted and refused contents beside every other parameter',
          'thorough': 'the full product with required-member presence'}
FLOOR = {'quick': 30000, 'thorough': 200000}

ISS = [('https://op.example.com', True), ('https://op.example.com/a/b', True), ('HTTPS://op.example.com', True),
       ('https://op.example.com:8443/', True), ('http://op.example.com', 'http'), ('http://localhost:80/x', 'http'),
       ('ftp://op.example.com', False), ('op.example.com', False), ('httpsx://op.example.com', False),
       ('https://op.example.com?a=b', False), ('https://op.example.com/#frag', False), ('http://op.example.com?a', False),
       ('https://op.example.com/x?https://', False), ('http://https://', 'http')]
BUILT = {}
for _s, _k in (('https', True), ('http', 'http'), ('HTTP', 'http'), ('hTtPs', True), ('ftp', False), ('urn', False)):
    for _h in ('op.example.com', 'u@op.example.com', 'u:p@op.example.com:8443', '[::1]:8443', '127.0.0.1', 'xn--bcher-kva.example', 'https'):
        for _p in ('', '/', '/a/b', '/a;b', '/a;b=c;d', ';x', '/a%3Fb', '/a%23b', '/é', '/.well-known/x', '//', '/a:443', '/a,b', '/a=b', '/a&b', '/https:'):
            for _q, _f in (('', ''), ('?c=d', ''), ('', '#f'), ('?c', '#f'), ('?a;b', ''), ('?https://x/#', '#'), ('', '#?x'), ('?/', ''), ('', '#/')):
                BUILT[_s + '://' + _h + _p + _q + _f] = _k if not (_q or _f) else False
SCOPES = [ABSENT, ['openid'], ['openid', 'profile'], ['profile', 'openid'], ['profile'], ['openidx'], ['openid', 'a b'],
          ['openid', 'x', 'é'], ['Openid']]
ALGS = [['RS256'], ['ES256', 'RS256'], ['ES256'], ['rs256'], ['RS2566', 'none'], ['none', 'RS256', 'HS256']]
RTS = [['code'], ['id_token'], ['id_token', 'id_token token'], ['id_token', 'code id_token'], ['code token', 'none'], ['none'],
       ['token code'], ['token', 'id_token token code']]
HTTP = [ABSENT, True, False]


def iss_ok(i, http):
    ok = BUILT[i] if i in BUILT else dict(ISS)[i]
    return http is True if ok == 'http' else ok


def char_ok(c):
    o = ord(c)
    return o == 0x21 or 0x23 <= o <= 0x5b or 0x5d <= o <= 0x7e


def rules(p, http):
    for r in ('issuer', 'authorization_endpoint', 'jwks_uri', 'response_types_supported', 'subject_types_supported',
              'id_token_signing_alg_values_supported'):
        if r not in p:
            return False
    if 'scopes_supported' in p:
        if 'openid' not in p['scopes_supported'] or not all(char_ok(c) for s in p['scopes_supported'] for c in s):
            return False
    if not iss_ok(p['issuer'], http) or 'RS256' not in p['id_token_signing_alg_values_supported']:
        return False
    if any('code' in rt.split() for rt in p['response_types_supported']) and p.get('token_endpoint') is None:
        return False
    return True


def shards(tier):
    return [('beside',)] + [('prod', i) for i in range(len(ISS))] + [('chars', i) for i in range(4)] + [('issuer', i) for i in range(4)] + [('req',), ('many',)]


BASE = {'issuer': 'https://op.example.com', 'authorization_endpoint': 'https://op.example.com/a', 'jwks_uri': 'https://op.example.com/j',
        'response_types_supported': ['code'], 'subject_types_supported': ['public'], 'token_endpoint': 'https://op.example.com/t',
        'id_token_signing_alg_values_supported': ['RS256']}


def judge(ck, cls, p, http, how, sig):
    args = {} if http is ABSENT else {'allow_http': http}
    ck.begin((how, p, args))
    exp = rules(p, http)
    v = verdict(transport(cls, p, how), **args)
    ck.case((how, repr(p), repr(args)), 'accepted' if v is True else 'refused')
    ck.expect((v is True) == exp, '%s %s' % (sig, 'accepted' if v is True else 'refused'), 'verdict %s, expected %s' % (v, exp))


def run(ck, shard):
    if shard[0] == 'beside':
        from mc import bystanders
        return bystanders.run(ck, 'C19')
    from oidcmsg.oidc import ProviderConfigurationResponse as cls
    T = {k: [v] for k, v in BASE.items()}
    T.update(token_endpoint=[BASE['token_endpoint'], ABSENT, None], response_types_supported=RTS + [ABSENT], scopes_supported=SCOPES,
             id_token_signing_alg_values_supported=ALGS + [ABSENT])
    if shard[0] == 'prod':
        T['issuer'] = [ISS[shard[1]][0]]
        if ck.thorough:
            T.update({k: [BASE[k], ABSENT] for k in ('authorization_endpoint', 'jwks_uri', 'subject_types_supported')})
        for n, p in enumerate(product(T)):
            for http in HTTP:
                judge(ck, cls, p, http, 'json' if n % 3 == 2 else 'object', 'metadata')
    elif shard[0] == 'issuer':
        for n, i in enumerate(list(BUILT)[shard[1]::4]):
            for http in HTTP:
                judge(ck, cls, dict(BASE, issuer=i), http, ('object', 'json', 'dict')[n % 3], 'issuer')
    elif shard[0] == 'chars':
        hi = 0x3000 if ck.thorough else 0x180
        for o in list(range(hi)) + [0x3042, 0xff21, 0x1f600, 0x10ffff]:
            if o % 4 != shard[1]:
                continue
            for s in (chr(o), 'a' + chr(o), chr(o) + 'a', 'a' + chr(o) + 'a'):
                for l in (['openid', s], [s, 'openid'], ['openid', 'profile', s]):
                    judge(ck, cls, dict(BASE, scopes_supported=l), ABSENT, 'object', 'scope character')
    elif shard[0] == 'many':
        from mc.kit import lists_of
        n = 0
        for s in ('openid', 'open id', 'é', 'scope\\', '"', 'x' * 5000 + ' ', 'x' * 255 + '"' + 'y' * 300, 'x' * 5000):
            for _, l in lists_of(s):
                for l in ([x + '&' if x != s else x for x in l], ['openid'] + l, l + ['openid']):
                    n += 1
                    judge(ck, cls, dict(BASE, scopes_supported=l), ABSENT, ('object', 'json', 'dict')[n % 3], 'long scope list')
        for s in ('RS256', 'rs256'):
            for _, l in lists_of(s):
                n += 1
                judge(ck, cls, dict(BASE, id_token_signing_alg_values_supported=l), ABSENT, ('object', 'json', 'dict')[n % 3], 'long algorithm list')
        for s in ('code', 'id_token token code', 'none', 'id_token'):
            for size in (3, 5, 8, 9, 16, 17, 33, 65, 129, 257):
                for at in sorted({0, 1, size // 2, size - 2, size - 1}):
                    l = ['id_token', 'token', 'id_token token', 'x_%d' % size] * size
                    l[at:] = [s] + l[at + 1:size]
                    for t in (ABSENT, BASE['token_endpoint']):
                        n += 1
                        p = dict(BASE, response_types_supported=l)
                        del p['token_endpoint']
                        judge(ck, cls, p if t is ABSENT else dict(p, token_endpoint=t), ABSENT, ('object', 'json', 'dict')[n % 3], 'long response type list')
    else:
        T = {k: [v, ABSENT] for k, v in BASE.items()}
        for p in product(T):
            for http in HTTP:
                for how in ('object', 'json', 'dict'):
                    if 'issuer' in p or True:
                        judge(ck, cls, p, http, how, 'required members')
        for extra in ({'userinfo_endpoint': 'https://x'}, {'claims_parameter_supported': True}, {'version': '1'}, {'x_ext': {'a': 1}},
                      {'grant_types_supported': ['implicit']}, {'error_description': 'fine'}, {'acr_values_supported': ['é']}):
            judge(ck, cls, dict(BASE, **extra), ABSENT, 'object', 'optional members')
        judge(ck, cls, dict(BASE, token_endpoint=None), ABSENT, 'object', 'null endpoint')
