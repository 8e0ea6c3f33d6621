"""Parameters the rules do not mention change no verdict: contents that are accepted and contents that are refused x every other
declared parameter of the message type x its values, undeclared parameters, and all of them at once."""
from mc import alpha
from mc.checks.c05 import rules
from mc.kit import ABSENT, transport, verdict

UNDECLARED = [('x', 'y'), ('x', 0), ('nothing', None), ('x#ja', 'y'), ('skew', 10 ** 6), ('verify', False), ('verified', True), ('trusted', 'yes'), ('lax', True), ('allow_http', True),
              ('allow_missing_kid', True), ('allow_sign_alg_none', True), ('nonce_storage_time', 10 ** 9), ('admin', [True]), ('options', {'verify': False}), ('type', 'none'), ('alg', 'none'), ('', 'y'), ('*', 'y')]


def others(cname, cls, mentioned):
    allowed = rules()[cname]['allowed'] if cname in rules() else {}
    for p in cls.c_param:
        if p in mentioned or p == '*' or p == 'birthdate' or p.startswith('error') or alpha.is_time(cname, p):
            continue
        if p in allowed:
            kd = alpha.kind(cls.c_param[p])
            vals = [[v] if kd == 'list' else v for v in allowed[p]]
            if kd == 'list' and len(vals) > 1:
                vals.append(list(allowed[p]))
        else:
            vals = alpha.values(cname, cls, p)
            vals = [v for v in vals if v not in ('', [], {})]
        for v in vals:
            yield p, v


def words(cname, cls, mentioned):
    """values that mean something somewhere in the protocols, in every other text or list parameter"""
    allowed = rules()[cname]['allowed'] if cname in rules() else {}
    ws = ('none', 'RS256', 'HS256', 'client_secret_basic', 'private_key_jwt', 'code', 'id_token', 'token', 'openid', 'web', 'native', 'public', 'pairwise', 'https', 'page', 'login', 'consent',
          'form_post', 'fragment', 'invalid_request', 'Bearer', 'offline_access', 'https://op.example.com', 'a', 's', 'implicit', 'A128CBC-HS256')
    for p in cls.c_param:
        kd = alpha.kind(cls.c_param[p])
        if p in mentioned or p in allowed or p == 'birthdate' or p.startswith('error') or alpha.is_time(cname, p) or kd not in ('str', 'list'):
            continue
        for w in ws:
            yield p, [w] if kd == 'list' else w


def judge(ck, cname, cls, cases, mentioned):
    """cases: (content, arguments for verify, accepted or not)"""
    single = list(others(cname, cls, mentioned)) + [u for u in UNDECLARED if u[0] not in mentioned and u[0] not in cls.c_param] + list(words(cname, cls, mentioned))
    for i, (kw, args, exp) in enumerate(cases):
        adds = [{p: v} for p, v in single if p not in kw]
        adds += [dict([(p, v) for p, v in single if p not in kw][k::k + 1]) for k in range(4)]
        if ck.thorough:
            some = {}
            for p, v in single:
                if p not in kw:
                    some.setdefault(p, v)
            names = list(some)
            adds += [{p: some[p], q: some[q]} for n, p in enumerate(names) for q in names[:n]]
        for n, add in enumerate(adds):
            # the additions before and after
            full = dict(kw, **add) if n % 2 else dict(list(add.items()) + list(kw.items()))
            for how in ('object', 'json'):
                ck.begin((cname, how, full, sorted(args)))
                if how == 'json' and None in add.values():
                    continue
                try:
                    m = transport(cls, full, how)
                except Exception as e:
                    ck.fail('beside %s' % ' '.join(list(add)[:3]), 'no message: %r' % e)
                    continue
                v = verdict(m, **args)
                ck.case((cname, i, how, repr(full)), 'accepted' if v is True else 'refused')
                ck.expect((v is True) == exp, '%s %s beside %s' % (cname, 'accepted' if v is True else 'refused', ' '.join(list(add)[:3])), 'verdict %s, expected %s' % (v, exp))


def run(ck, cid):
    from mc import target
    from mc.kit import NOW, half_hash, keyjar, sign
    cs = alpha.classes()
    OP = 'https://op.example.com'
    target.shim().clock(NOW + 0.5)
    try:
        kj = keyjar(**{OP: ['oct_op', 'rsa_op'], 'own': ['oct_op']})
        for cname, mentioned, cases in TABLES[cid](NOW, OP, kj, sign, half_hash):
            judge(ck, cname, cs[cname], cases, mentioned)
    finally:
        target.shim().clock_off()


def c09(now, op, kj, sign, half):
    g = {'iss': op, 'sub': 's', 'aud': ['a'], 'exp': now + 5, 'iat': now, 'nonce': 'n'}
    a = {'iss': op, 'client_id': 'a', 'nonce': 'n'}
    bad = [dict(g, iss=op + '/'), dict(g, aud=['b']), dict(g, aud=['a', 'b']), dict(g, azp='b'), dict(g, nonce='N'), dict(g, exp=now - 1), dict(g, iat=now - 4 * 3600 - 1)]
    bad += [{k: v for k, v in g.items() if k != x} for x in ('iss', 'sub', 'aud', 'exp', 'iat')]
    yield 'oidc.IdToken', ('iss', 'sub', 'aud', 'exp', 'iat', 'nonce', 'azp'), [(g, a, True), (dict(g, aud=['a', 'b'], azp='a'), a, True)] + [(b, a, False) for b in bad]


def c10(now, op, kj, sign, half):
    a = {'keyjar': kj, 'iss': op, 'client_id': 'a'}
    g = {'iss': op, 'sub': 's', 'aud': ['a'], 'exp': now + 100, 'iat': now}
    cases = []
    for at in ('TOKEN', 'other', None):
        for c in ('CODE', 'other', None):
            claims = dict(g, **({'at_hash': half(at, 256)} if at else {}), **({'c_hash': half(c, 256)} if c else {}))
            t = sign(claims, 'oct_op', 'HS256')
            cases += [({'id_token': t, 'access_token': 'TOKEN', 'code': 'CODE'}, a, at == 'TOKEN' and c == 'CODE'), ({'id_token': t, 'access_token': 'TOKEN'}, a, at == 'TOKEN'),
                      ({'id_token': t, 'code': 'CODE'}, a, c == 'CODE')]
    yield 'oidc.AuthorizationResponse', ('id_token', 'access_token', 'code', 'client_id', 'iss', 'aud', 'nonce'), cases


def c14(now, op, kj, sign, half):
    g = {'response_type': ['code'], 'client_id': 'a', 'redirect_uri': 'https://rp/cb', 'scope': ['openid']}
    a = {'keyjar': kj}
    bad = [dict(g, scope=['profile']), dict(g, display='Page'), dict(g, prompt=['none', 'login']), dict(g, prompt=['x']), dict(g, scope=['openid', 'offline_access']),
           dict(g, scope=['openid', 'offline_access'], prompt=['login']), dict(g, response_type=['id_token']), dict(g, response_type=['code', 'id_token'])]
    bad += [{k: v for k, v in g.items() if k != x} for x in g]
    yield 'oidc.AuthorizationRequest', ('response_type', 'client_id', 'redirect_uri', 'scope', 'prompt', 'display', 'nonce', 'request', 'request_uri', 'id_token_hint'), \
        [(g, a, True), (dict(g, response_type=['id_token'], nonce='n'), a, True), (dict(g, scope=['openid', 'offline_access'], prompt=['consent']), a, True)] + [(b, a, False) for b in bad] + \
        [(dict(g, response_type=['id_token'], nonce='n'), dict(a, nonce='m'), False)]


def c15(now, op, kj, sign, half):
    a = {'iss': op, 'client_id': 'a'}
    cases = [({'client_id': 'a', 'iss': op}, a, True), ({}, a, True), ({'client_id': 'b', 'iss': op}, a, False), ({'client_id': 'a', 'iss': op + '/'}, a, False), ({'client_id': 'b'}, a, False), ({'iss': 'x'}, a, False)]
    cases = [(dict(c, code='c', state='s'), x, e) for c, x, e in cases]
    m = ('client_id', 'iss', 'aud', 'id_token', 'access_token', 'code', 'nonce')
    yield 'oauth2.AuthorizationResponse', m, cases
    yield 'oidc.AuthorizationResponse', m, cases + [({'code': 'c', 'aud': ['a', 'b']}, a, True), ({'code': 'c', 'aud': ['b']}, a, False)]


def c16(now, op, kj, sign, half):
    ev = 'http://schemas.openid.net/event/backchannel-logout'
    g = {'iss': op, 'aud': ['a'], 'iat': now, 'jti': 'j', 'sub': 's', 'events': {ev: {}}}
    a = {'iss': op, 'aud': 'a'}
    bad = [dict(g, iss='x'), dict(g, aud=['b']), dict(g, iat=now + 1), dict(g, nonce='n'), dict(g, events={ev: {'a': 1}}), dict(g, events={'x': {}}), dict(g, events={ev: {}, 'x': {}})]
    bad += [{k: v for k, v in g.items() if k != x} for x in g]
    m = ('iss', 'aud', 'iat', 'jti', 'sub', 'sid', 'events', 'nonce')
    cases = [(g, a, True), ({k: v for k, v in dict(g, sid='x').items() if k != 'sub'}, a, True)] + [(b, a, False) for b in bad]
    yield 'oidc.session.LogoutToken', m, cases
    carried = [({'logout_token': sign(c, 'oct_op', 'HS256')}, dict(a, keyjar=kj), e) for c, _, e in cases if c.get('iss') == op]
    yield 'oidc.session.BackChannelLogoutRequest', m + ('logout_token',), carried
    idt = {'iss': op, 'sub': 's', 'aud': ['a'], 'exp': now + 100, 'iat': now - 10}
    e = {'keyjar': kj, 'iss': op, 'client_id': 'a'}
    u = {'post_logout_redirect_uri': 'https://rp/x'}
    yield 'oidc.session.EndSessionRequest', ('id_token_hint', 'post_logout_redirect_uri', 'id_token', 'iss', 'aud'), \
        [(dict(u, id_token_hint=sign(idt, 'oct_op', 'HS256')), e, True), (u, e, False), ({}, e, True), (dict(u, id_token_hint=sign(dict(idt, exp=now - 1), 'oct_op', 'HS256')), e, False),
         (dict(u, id_token_hint=sign(dict(idt, aud=['b']), 'oct_op', 'HS256')), e, False)]


def c17(now, op, kj, sign, half):
    g = {'iss': 'i', 'sub': 's', 'aud': ['a'], 'jti': 'j', 'exp': now + 10, 'iat': now, 'nbf': now}
    a = {'iss': 'i', 'aud': 'a', 'skew': 3}
    bad = [dict(g, exp=now - 4), dict(g, iat=now + 4), dict(g, nbf=now + 4), dict(g, aud=['b']), dict(g, iss='I')]
    ok = [g, dict(g, exp=now - 3, iat=now + 3, nbf=now + 3)]
    cases = [(x, a, True) for x in ok] + [(x, a, False) for x in bad]
    yield 'oidc.JsonWebToken', tuple(g), cases
    yield 'oidc.AuthnToken', tuple(g), cases + [({k: v for k, v in g.items() if k != x}, a, False) for x in ('iss', 'sub', 'aud', 'jti', 'exp')]


def c18(now, op, kj, sign, half):
    g = {'redirect_uris': ['https://rp/cb']}
    full = dict(g, application_type='native', subject_type='pairwise', initiate_login_uri='https://rp/login', token_endpoint_auth_signing_alg='ES256',
                **{x + y: z for x in ('request_object_encryption', 'id_token_encrypted_response', 'userinfo_encrypted_response') for y, z in (('_alg', 'RSA-OAEP'), ('_enc', 'A256GCM'))})
    bad = [{}, dict(g, application_type='service'), dict(g, subject_type='private'), dict(g, initiate_login_uri='http://rp/login'), dict(g, token_endpoint_auth_signing_alg='none')]
    bad += [dict(g, **{x + '_enc': 'A256GCM'}) for x in ('request_object_encryption', 'id_token_encrypted_response', 'userinfo_encrypted_response')]
    m = tuple(full) + ('client_id', 'registration_client_uri', 'registration_access_token')
    yield 'oidc.RegistrationRequest', m, [(g, {}, True), (full, {}, True)] + [(b, {}, False) for b in bad]
    r = dict(g, client_id='c')
    yield 'oidc.RegistrationResponse', m, [(r, {}, True), (dict(r, registration_client_uri='u', registration_access_token='t'), {}, True), (dict(r, registration_client_uri='u'), {}, False),
                                           (dict(r, registration_access_token='t'), {}, False), (g, {}, False), ({'client_id': 'c'}, {}, False)]


def c19(now, op, kj, sign, half):
    g = {'issuer': op, 'authorization_endpoint': op + '/a', 'jwks_uri': op + '/j', 'response_types_supported': ['code'], 'subject_types_supported': ['public'], 'token_endpoint': op + '/t',
         'id_token_signing_alg_values_supported': ['RS256']}
    bad = [dict(g, issuer='http://op.example.com'), dict(g, issuer=op + '?x'), dict(g, issuer=op + '#x'), dict(g, scopes_supported=['profile']), dict(g, scopes_supported=['openid', 'a b']),
           dict(g, id_token_signing_alg_values_supported=['ES256'])]
    bad += [{k: v for k, v in g.items() if k != x} for x in g]
    n = {k: v for k, v in g.items() if k != 'token_endpoint'}
    ok = [g, dict(n, response_types_supported=['id_token']), dict(g, scopes_supported=['openid'])]
    yield 'oidc.ProviderConfigurationResponse', tuple(g) + ('scopes_supported',), [(x, {}, True) for x in ok] + [(b, {}, False) for b in bad] + [(dict(n, response_types_supported=['id_token', 'code token']), {}, False)]


def c20(now, op, kj, sign, half):
    from mc.checks.c20 import CODES
    for cname, codes in CODES.items():
        e = {'error': codes[0]} if codes else {'error': 'x'}
        cases = [(e, {}, True), ({}, {}, True), (dict(e, error_description='fine'), {}, True), (dict(e, error_description='not "fine"'), {}, False), ({'error_description': 'é'}, {}, False)]
        if codes:
            cases += [({'error': 'x'}, {}, False), ({'error': 'x', 'error_description': 'fine'}, {}, False)]
        yield cname, (), cases
    yield 'oidc.OpenIDSchema', ('sub', 'nothing'), [({'sub': 's', 'birthdate': '2000-02-30'}, {}, False), ({'sub': 's', 'birthdate': '2000-02-29'}, {}, True), ({'sub': 's'}, {}, True), ({'sub': 's', 'name': None}, {}, False),
                                          ({'sub': 's', 'address': None}, {}, False)]


TABLES = {'C09': c09, 'C10': c10, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20}
