"""Full product over everything the registration rules mention; verdicts and the resulting message are compared with a
decision table, directly and after JSON transport, and verification is repeated."""
from mc.kit import ABSENT, near, product, transport, verdict

TECHNIQUE = 'bounded exhaustive enumeration of parameter products against a decision table'
LEVEL = 'model_checking'
BOUNDS = {'quick': '4^3 alg/enc combinations x login URIs x signing algorithms x types x redirect URIs (two sub-products); accepted and refused contents beside every other parameter',
          'thorough': 'one full product'}
FLOOR = {'quick': 40000, 'thorough': 400000}

PAIRS = ['request_object_encryption', 'id_token_encrypted_response', 'userinfo_encrypted_response']
LOGIN = [ABSENT, 'https://rp.example.com/login', 'http://rp.example.com/login', 'https', 'httpsx://rp', 'ftp://https:', 'rp.example.com']
URIS = near('https://rp.example.com/login') + ['http://localhost/x', 'http://localhost:8080', 'http://127.0.0.1/x', 'http://[::1]/x', 'https://localhost', 'https://127.0.0.1:8443/x', '/login',
        'login', 'javascript:https:', 'data:,https:', 'file:///https:', 'com.example.app:/login', 'https:login', 'https', ':https:', 'http:https:', 'https://rp/?x=http://y',
        'http://rp.example.com/?https:', 'wss://rp', 'https+x://rp', 'https%3A//rp', 'https ://rp']
SALG = [ABSENT, 'RS256', 'none', 'ES256', 'None2']
APP = [ABSENT, 'web', 'native', 'Web', 'service']
SUBJ = [ABSENT, 'public', 'pairwise', 'private', 'pair']
REDIR = [['https://rp.example.com/cb'], ABSENT, ['http://a', 'https://b']]
ALG = [ABSENT, 'RSA-OAEP', 'dir']
ENC = [ABSENT, 'A256GCM', 'A128CBC-HS256']
OTHER_ENC = ['XC20P', 'a128cbc-hs256', 'none', 'Q', 'é', '0', 'A', 'C20P', 'A192CBC-HS384', 'A256CBC-HS512', 'A128GCM', ' A128GCM', 'x' * 200]
OTHER_ALG = ['dir', 'none', 'A128KW', 'ECDH-ES', 'ECDH-ES+A256KW', 'RSA1_5', 'PBES2-HS256+A128KW', 'é', '0', 'rsa-oaep', 'X25519']


def rules(p):
    """(accepted, parameters afterwards)"""
    after = dict(p)
    after.setdefault('application_type', 'web')
    after.setdefault('response_types', ['code'])
    if 'redirect_uris' not in p or after['application_type'] not in ('web', 'native'):
        return False, None
    if p.get('subject_type', 'public') not in ('public', 'pairwise'):
        return False, None
    if 'initiate_login_uri' in p and not p['initiate_login_uri'].startswith('https:'):
        return False, None
    if p.get('token_endpoint_auth_signing_alg') == 'none':
        return False, None
    for x in PAIRS:
        if x + '_enc' in p and x + '_alg' not in p:
            return False, None
        if x + '_alg' in p:
            after.setdefault(x + '_enc', 'A128CBC-HS256')
    return True, after


def shards(tier):
    return [('beside',)] + [('req', a, e) for a in range(len(ALG)) for e in range(len(ENC))] + [('resp', i) for i in range(2)] + [('values', x) for x in PAIRS]


def run_values(ck, cls, x):
    uris = [u for u in URIS if u.startswith('https:') or not u.lower().startswith('https:')]      # nothing is said about the case of the scheme
    cases = [{'initiate_login_uri': u} for u in uris]
    cases += [{'initiate_login_uri': u, 'application_type': 'native', 'redirect_uris': ['http://localhost/cb']} for u in uris]
    cases += [{'application_type': v} for v in near('web') + near('native')] + [{'subject_type': v} for v in near('public') + near('pairwise')]
    cases += [{'token_endpoint_auth_signing_alg': v} for v in near('none') + ['HS256', 'no', 'one']]
    for p in cases:
        p = dict({'redirect_uris': ['https://rp/cb'], x + '_alg': 'RSA1_5'}, **p)
        for how in ('object', 'json', 'dict'):
            ck.begin((how, p))
            m = transport(cls, p, how)
            ok, after = rules(p)
            v = verdict(m)
            ck.case((how, repr(p)), 'accepted' if v is True else 'refused')
            if ck.expect((v is True) == ok, 'request ' + ('accepted' if v is True else 'refused'), 'verdict %s, expected %s' % (v, ok)) and ok:
                ck.expect(m.to_dict() == after, 'parameters', lambda: 'after verification %r, expected %r' % (m.to_dict(), after))
    """what the client chose stays, whatever it chose"""
    for p in product({x + '_alg': [ABSENT] + OTHER_ALG, x + '_enc': [ABSENT] + OTHER_ENC, 'redirect_uris': [['https://rp/cb']],
                      'application_type': [ABSENT, 'native'], 'response_types': [ABSENT, ['code', 'id_token token']], 'require_auth_time': [ABSENT, False]}):
        for how in ('object', 'json'):
            ck.begin((how, p))
            m = transport(cls, p, how)
            ok, after = rules(p)
            v = verdict(m)
            ck.case((how, repr(p)), 'accepted' if v is True else 'refused')
            if ck.expect((v is True) == ok, 'request ' + ('accepted' if v is True else 'refused'), 'verdict %s, expected %s' % (v, ok)) and ok:
                ck.expect(m.to_dict() == after, 'parameters', lambda: 'after verification %r, expected %r' % (m.to_dict(), after))


def run(ck, shard):
    if shard[0] == 'beside':
        from mc import bystanders
        return bystanders.run(ck, 'C18')
    from oidcmsg.oidc import RegistrationRequest, RegistrationResponse
    if shard[0] == 'values':
        return run_values(ck, RegistrationRequest, shard[1])
    if shard[0] == 'req':
        enc = {PAIRS[0] + '_alg': [ALG[shard[1]]], PAIRS[0] + '_enc': [ENC[shard[2]]]}
        for x in PAIRS[1:]:
            enc[x + '_alg'] = ALG if ck.thorough else ALG[:2]
            enc[x + '_enc'] = ENC if ck.thorough else ENC[:2]
        rest = {'initiate_login_uri': LOGIN, 'token_endpoint_auth_signing_alg': SALG, 'application_type': APP,
                'subject_type': SUBJ, 'redirect_uris': REDIR}
        if ck.thorough:
            tables = [dict(rest, **dict(enc, redirect_uris=REDIR[:2], subject_type=SUBJ[:4], token_endpoint_auth_signing_alg=SALG[:3]))]
        else:
            tables = [dict({k: v[:3] for k, v in rest.items()}, **dict(enc, application_type=[ABSENT, 'service'], subject_type=['public', 'pair'])),
                      dict(rest, **{k: v[:1] if k.startswith('u') else v for k, v in enc.items()})]
        for t in tables:
            for n, p in enumerate(product(t)):
                how = 'json' if n % 4 == 3 else 'object'
                ck.begin((how, p))
                m = transport(RegistrationRequest, p, how)
                ok, after = rules(p)
                v = verdict(m)
                ck.case((how, repr(p)), 'accepted' if v is True else 'refused')
                if ck.expect((v is True) == ok, 'request ' + ('accepted' if v is True else 'refused'),
                             'verdict %s, expected %s' % (v, ok)) and ok:
                    ck.expect(m.to_dict() == after, 'parameters', lambda: 'after verification %r, expected %r' % (m.to_dict(), after))
                    v = verdict(m)
                    ck.expect(v is True and m.to_dict() == after, 'again', lambda: 'verified again: %s, %r' % (v, m.to_dict()))
        return
    N = {'client_id': ['c', ABSENT], 'registration_client_uri': ['https://op/reg', ABSENT, None],
         'registration_access_token': ['t', ABSENT, None], 'redirect_uris': [['https://rp/cb'], ABSENT],
         'client_secret': [ABSENT, 's'], 'client_secret_expires_at': [ABSENT, 0, 17], 'application_type': [ABSENT, 'web'],
         'error': [ABSENT, 'x'], 'error_description': [ABSENT, 'fine', 'not "fine"'], 'extra': [ABSENT, 'e']}
    for p in product(N):
        for how in (('object',), ('json',))[shard[1]]:
            ck.begin(('response', how, p))
            v = verdict(transport(RegistrationResponse, p, how))
            bad = 'client_id' not in p or 'redirect_uris' not in p or 'not "fine"' == p.get('error_description') or \
                (p.get('registration_client_uri') is None) != (p.get('registration_access_token') is None)
            ck.case(('resp', how, repr(p)), 'accepted' if v is True else 'refused')
            ck.expect((v is True) != bad, 'response ' + ('accepted' if v is True else 'refused'), 'verdict %s' % v)
