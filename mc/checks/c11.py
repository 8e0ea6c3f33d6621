"""Full product of token protections (every algorithm, no signature spelled in every way, encryption only, foreign and unknown
keys) x what the receiver allows or demands x every message that carries an identity token. Unsigned tokens may only pass when
explicitly allowed; signed ones pass exactly when the key is the issuer's and the algorithm the demanded one."""
import json

from mc import target
from mc.checks.c05 import OP
from mc.kit import ABSENT, NOW, b64, encrypt, key, keyjar, product, raw_sign, sign, transport, unsigned, verdict

TECHNIQUE = 'bounded exhaustive enumeration of token protections x receiver settings x carriers against a decision table'
LEVEL = 'model_checking'
BOUNDS = {'quick': '9 carriers x 45 protections x 5 allowances x 14 demanded algorithms (two ways to demand) x 2-4 transports',
          'thorough': 'same with all 4 transports'}
FLOOR = {'quick': 10000, 'thorough': 15000}

EVIL, NOBODY = 'https://evil.example.com', 'https://nobody.example.com'
ALGS = {'HS256': 'oct_op', 'HS384': 'oct_op', 'HS512': 'oct_op', 'RS256': 'rsa_op', 'RS384': 'rsa_op', 'RS512': 'rsa_op', 'PS256': 'rsa_op',
        'PS384': 'rsa_op', 'PS512': 'rsa_op', 'ES256': 'ec_op', 'ES384': 'ec384_op', 'ES512': 'ec521_op'}
EV = 'http://schemas.openid.net/event/backchannel-logout'
CARRIERS = ('AccessTokenResponse', 'AuthorizationResponse', 'RefreshSessionRequest', 'RefreshSessionResponse', 'CheckSessionRequest',
            'MessageWithIdToken', 'EndSessionRequest', 'BackChannelLogoutRequest', 'AuthorizationRequest')


def carrier(name):
    from oidcmsg import oidc
    from oidcmsg.oidc import session
    cls = getattr(session, name, None) or getattr(oidc, name)
    rest = {'AccessTokenResponse': {'access_token': 'at', 'token_type': 'Bearer'}, 'AuthorizationResponse': {'state': 's'},
            'RefreshSessionRequest': {'redirect_url': 'https://rp/x', 'state': 's'}, 'RefreshSessionResponse': {'state': 's'},
            'EndSessionRequest': {'post_logout_redirect_uri': 'https://rp/y'},
            'AuthorizationRequest': {'response_type': 'code', 'client_id': 'a', 'redirect_uri': 'https://rp/x', 'scope': ['openid']}}.get(name, {})
    slot = {'EndSessionRequest': 'id_token_hint', 'AuthorizationRequest': 'id_token_hint', 'BackChannelLogoutRequest': 'logout_token'}.get(name, 'id_token')
    return cls, rest, slot


def tokens(claims):
    """name -> (kind, algorithm or None, token); kinds: signed, unsigned, bad"""
    res = {}
    for a, k in ALGS.items():
        res[a] = ('signed', a, sign(claims, k, a))
    body = b64(claims)
    for spelled in ('none', 'None', 'NONE', 'nOne', ' none', '', None, 0, False, [], {}):
        res['unsigned %r' % (spelled,)] = ('unsigned', None, b64({'alg': spelled}) + '.' + body + '.')
    res['unsigned without algorithm'] = ('unsigned', None, b64({'typ': 'JWT'}) + '.' + body + '.')
    res['unsigned with typ and kid'] = ('unsigned', None, b64({'alg': 'none', 'typ': 'JWT', 'kid': key('rsa_op').kid}) + '.' + body + '.')
    good = res['RS256'][2].split('.')
    res['none with signature'] = ('unsigned', None, b64({'alg': 'none'}) + '.' + body + '.' + good[2])
    res['RS256 without signature'] = ('bad', None, good[0] + '.' + good[1] + '.')
    res['HS256 without signature'] = ('bad', None, '.'.join(res['HS256'][2].split('.')[:2]) + '.')
    res['RS256 other claims'] = ('bad', None, '.'.join((good[0], b64(dict(claims, sub='victim')), good[2])))
    res['RS256 key of another'] = ('bad', None, sign(claims, 'rsa_evil', 'RS256'))
    res['ES256 key of another'] = ('bad', None, sign(claims, 'ec_evil', 'ES256'))
    res['HS256 key of another'] = ('bad', None, sign(claims, 'oct_evil', 'HS256'))
    res['RS256 key of another with right kid'] = ('bad', None, raw_sign({'alg': 'RS256', 'kid': key('rsa_op').kid}, claims, 'rsa_evil', 'RS256'))
    res['RS256 unknown issuer'] = ('bad', None, sign(dict(claims, iss=NOBODY), 'rsa_op', 'RS256'))
    res['ES256 unknown issuer'] = ('bad', None, sign(dict(claims, iss=NOBODY), 'ec_evil', 'ES256'))
    res['RS256 issuer twin'] = ('bad', None, sign(dict(claims, iss=OP + '/'), 'rsa_op', 'RS256'))
    res['RS256 no issuer'] = ('bad', None, sign({k: v for k, v in claims.items() if k != 'iss'}, 'rsa_op', 'RS256'))
    res['ES256 in the name of another'] = ('bad', None, sign(dict(claims, iss=EVIL), 'ec_op', 'ES256'))
    res['encrypted only'] = ('unsigned', None, encrypt(json.dumps(claims), 'rsa_rp_enc', 'RSA-OAEP'))
    res['encrypted only, said to be a JWT'] = ('unsigned', None, encrypt(json.dumps(claims), 'rsa_rp_enc', 'RSA-OAEP', cty='JWT'))
    res['encrypted unsigned'] = ('unsigned', None, encrypt(unsigned(claims), 'rsa_rp_enc', 'RSA-OAEP', cty='JWT'))
    res['encrypted foreign'] = ('bad', None, encrypt(sign(claims, 'rsa_evil', 'RS256'), 'rsa_rp_enc', 'RSA-OAEP', cty='JWT'))
    res['bare claims'] = ('unsigned', None, json.dumps(claims))
    return res


def shards(tier):
    return [(c, d) for c in CARRIERS for d in range(3)]


def run(ck, shard):
    name, part = shard
    cls, rest, slot = carrier(name)
    now = NOW + 17
    target.shim().clock(now + 0.5)
    kj = keyjar(**{OP: ['rsa_op', 'ec_op', 'ec384_op', 'ec521_op', 'oct_op'], EVIL: ['rsa_evil', 'ec_evil', 'oct_evil'], 'own': ['rsa_rp_enc', 'ec_rp']})
    base = {'iss': OP, 'sub': 's', 'aud': ['a'], 'iat': now}
    if slot == 'logout_token':
        claims = dict(base, jti='j', events={EV: {}})
    else:
        claims = dict(base, exp=now + 100)
    demands = [ABSENT] + list(ALGS) + ['none']
    try:
        for n, (tn, (kind, alg, tok)) in enumerate(tokens(claims).items()):
            for how in ('object', 'json', 'dict', 'form') if ck.thorough else ('object', ('json', 'dict', 'form')[n % 3]):
                for allow in ((ABSENT, None), (False, 0), (True,))[part]:
                    for way in ('allowed_sign_alg', 'sigalg'):
                        for d in demands:
                            if d is ABSENT and way == 'sigalg' or d == 'none' and way == 'allowed_sign_alg':
                                continue
                            args = {'keyjar': kj, 'client_id': 'a', 'iss': OP} if name != 'AuthorizationRequest' else {'keyjar': kj}
                            if allow is not ABSENT:
                                args['allow_sign_alg_none'] = allow
                            if d is not ABSENT:
                                args[way] = d
                            ck.begin((name, how, tn, allow, way, d))
                            v = verdict(transport(cls, dict(rest, **{slot: tok}), how), **args)
                            ok = v is True
                            ck.case((name, how, tn, allow, way, d), ('accepted ' if ok else 'refused ') + kind)
                            if kind == 'bad':
                                exp = False
                            elif kind == 'unsigned':
                                if allow is True or d == 'none':
                                    continue          # up to the receiver
                                exp = False
                            elif d == 'none':
                                continue              # nobody asks for a signature
                            else:
                                exp = d is ABSENT or d == alg
                            ck.expect(ok == exp, '%s: %s %s' % (name, tn, 'accepted' if ok else 'refused'),
                                      'verdict %s, expected %s (allow unsigned: %r, %s=%r)' % (v, exp, allow, way, d))
    finally:
        target.shim().clock_off()
