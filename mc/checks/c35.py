"""Every way a token can be encrypted (all algorithms and content encryptions), not encrypted or pretend to be, x everything a receiver
can demand x every message that carries a token. A token may only pass when it is encrypted the way that was demanded; demands that are
met, and demands that are none, change nothing."""
import itertools
import json

from mc import target
from mc.checks import c11
from mc.checks.c05 import OP
from mc.checks.c12 import plain
from mc.kit import ABSENT, NOW, b64, encrypt, key, keyjar, raw_sign, sign, transport, unsigned, verdict

TECHNIQUE = 'bounded exhaustive enumeration of token encryptions x receiver demands x carriers against a decision table'
LEVEL = 'model_checking'
BOUNDS = {'quick': 'from_jwt: 60 encryptions and 24 other tokens x 20 demanded algorithms x 15 demanded content encryptions; 3 requests with an object: 84 tokens x 35 demands; '
                   '9 identity token carriers: 84 tokens x 35 demands',
          'thorough': 'requests: all 300 demands; all transports'}
FLOOR = {'quick': 40000, 'thorough': 100000}

ALGS = ('RSA1_5', 'RSA-OAEP', 'RSA-OAEP-256', 'A128KW', 'A192KW', 'A256KW', 'ECDH-ES', 'ECDH-ES+A128KW', 'ECDH-ES+A192KW', 'ECDH-ES+A256KW')
ENCS = ('A128CBC-HS256', 'A192CBC-HS384', 'A256CBC-HS512', 'A128GCM', 'A192GCM', 'A256GCM')
NONE = (ABSENT, '', None, [])
DEM_ALG = NONE + tuple(ALGS) + (['RSA-OAEP'], ['RSA1_5', 'ECDH-ES'], list(ALGS), ['dir'], 'RS256', 'none')
DEM_ENC = NONE + tuple(ENCS) + (['A128GCM'], ['A256GCM', 'A128CBC-HS256'], list(ENCS), ['A1'], 'HS256')
REQUESTS = ('oauth2.JWTSecuredAuthorizationRequest', 'oauth2.PushedAuthorizationRequest', 'oidc.AuthorizationRequest')


def key_for(alg):
    return 'rsa_rp_enc' if alg.startswith('RSA') else 'ec_rp_enc' if alg.startswith('EC') else 'oct_rp_enc'


def tokens(claims, signer):
    """name -> (algorithm, content encryption, token) of encrypted tokens, (None, None, token) of others"""
    good = sign(claims, signer, 'RS256')
    res = {}
    for n, (a, e) in enumerate(itertools.product(ALGS, ENCS)):
        # what is encrypted: mostly something properly signed
        res['%s/%s' % (a, e)] = (a, e, encrypt(good, key_for(a), a, e, cty='JWT'))
    res['encrypted unsigned'] = ('RSA-OAEP', ENCS[0], encrypt(unsigned(claims), 'rsa_rp_enc', 'RSA-OAEP', cty='JWT'))
    res['encrypted bare'] = ('ECDH-ES', ENCS[4], encrypt(json.dumps(claims), 'ec_rp_enc', 'ECDH-ES', ENCS[4]))
    res['encrypted forged'] = ('RSA-OAEP', ENCS[0], encrypt(sign(claims, 'rsa_evil', 'RS256'), 'rsa_rp_enc', 'RSA-OAEP', cty='JWT'))
    res['encrypted twice'] = ('RSA1_5', ENCS[3], encrypt(res['RSA-OAEP/A128GCM'][2], 'rsa_rp_enc', 'RSA1_5', ENCS[3], cty='JWT'))
    res['encrypted for another'] = ('RSA-OAEP', ENCS[0], encrypt(good, 'rsa_other_enc', 'RSA-OAEP', cty='JWT'))
    parts = res['RSA-OAEP/A128GCM'][2].split('.')
    res['tampered'] = ('RSA-OAEP', 'A128GCM', '.'.join(parts[:3] + [('A' if parts[3][0] != 'A' else 'B') + parts[3][1:]] + parts[4:]))
    for hn, h in (('another algorithm', {'alg': 'RSA1_5', 'enc': 'A128GCM'}), ('another content encryption', {'alg': 'RSA-OAEP', 'enc': 'A256GCM'})):
        res['encrypted, said to be ' + hn] = (h['alg'], h['enc'], '.'.join([b64(dict(h, cty='JWT', kid='rsa_rp_enc'))] + parts[1:]))
    plain_ = {'RS256': good, 'unsigned': unsigned(claims), 'bare': json.dumps(claims)}
    for hn, h in (('encryption headers', {'alg': 'RS256', 'enc': 'A128GCM'}), ('list header', {'alg': 'RS256', 'enc': list(ENCS)}), ('typ JWE', {'alg': 'RS256', 'typ': 'JWE'}),
                  ('everything', {'alg': 'RS256', 'enc': 'A128GCM', 'cty': 'JWT', 'encalg': 'RSA-OAEP', 'encenc': 'A128GCM'}), ('zip', {'alg': 'RS256', 'zip': 'DEF'}),
                  ('empty enc', {'alg': 'RS256', 'enc': ''}), ('null enc', {'alg': 'RS256', 'enc': None})):
        plain_['signed with ' + hn] = raw_sign(dict(h, kid=key(signer).kid), claims, signer, 'RS256')
        plain_['unsigned with ' + hn] = b64(dict(h, alg='none')) + '.' + b64(claims) + '.'
    plain_['signature as tag'] = '.'.join([b64({'alg': 'RSA-OAEP', 'enc': 'A128GCM'})] + good.split('.')[1:])
    plain_['five parts'] = good + '..'
    for n, t in plain_.items():
        res[n] = (None, None, t)
    return res


def wants(d, have):
    """does this satisfy the demand"""
    if d is ABSENT or not d:
        return True
    return have is not None and (have in d if isinstance(d, list) else have == d)


def demands(some):
    if not some:
        return list(itertools.product(DEM_ALG, DEM_ENC))
    return [(a, ABSENT) for a in DEM_ALG] + [(ABSENT, e) for e in DEM_ENC[1:]] + [('RSA-OAEP', 'A128GCM')]


def shards(tier):
    return [('jwt', i) for i in range(10)] + [('request', r) for r in REQUESTS] + [('carrier', c) for c in c11.CARRIERS]


def args_of(a, e):
    res = {}
    if a is not ABSENT:
        res['encalg'] = a
    if e is not ABSENT:
        res['encenc'] = e
    return res


def own():
    return ['rsa_rp_enc', 'ec_rp_enc', 'oct_rp_enc', 'ec_rp']


def jwt(ck, part):
    from oidcmsg.message import Message
    from oidcmsg.oauth2 import SecurityEventToken
    kj = keyjar(**{OP: ['rsa_op', 'ec_op'], 'evil': ['rsa_evil'], 'own': own()})
    claims = {'iss': OP, 'sub': 's', 'aud': ['a'], 'iat': NOW, 'jti': 'j', 'events': {'e': {}}}
    for n, (tn, (alg, enc, tok)) in enumerate(tokens(claims, 'rsa_op').items()):
        if n % 10 != part:
            continue
        base = {}
        for cls in (Message, SecurityEventToken) if n % 3 == 0 else (Message,):
            def read(args):
                try:
                    return cls().from_jwt(tok, kj, **args).to_dict()
                except Exception as x:
                    return '%s(%s)' % (type(x).__name__, str(x)[:100])
            ck.begin((cls.__name__, tn))
            base = read({})
            for a, e in demands(False):
                ck.begin((cls.__name__, tn, a, e))
                got = read(args_of(a, e))
                met = wants(a, alg) and wants(e, enc)
                ck.case((cls.__name__, tn, repr(a), repr(e)), 'read' if isinstance(got, dict) else 'refused')
                if met and isinstance(base, dict):
                    ck.expect(got == base, 'from_jwt: met demand', lambda: 'demanded %r %r: %r, without a demand %r' % (a, e, got, base))
                else:
                    ck.expect(not isinstance(got, dict), 'from_jwt: %s' % ('unmet demand' if not met else 'demand'), lambda: 'accepted although %r %r was demanded' % (a, e))
            ck.count('tokens')
            if alg and tn == '%s/%s' % (alg, enc) or tn in ('RS256', 'unsigned'):
                ck.expect(isinstance(base, dict) and dict(base, events=claims['events']) == claims, 'from_jwt: good token', lambda: '%r' % (base,))


def request(ck, rname):
    from oidcmsg import oauth2, oidc
    m, c = rname.split('.')
    cls = getattr(oauth2 if m == 'oauth2' else oidc, c)
    kj = keyjar(**{'a': ['rsa_rp'], 'e': ['rsa_evil'], 'own': own()})
    outside = {'client_id': 'a', 'response_type': ['code'], 'scope': ['openid'], 'redirect_uri': 'https://rp/1', 'state': 'outside'}
    inside = dict(outside, iss='a', state='inside')
    n = 0
    for tn, (alg, enc, tok) in tokens(inside, 'rsa_rp').items():
        base = None
        for a, e in [(ABSENT, ABSENT)] + demands(not ck.thorough):
            n += 1
            for how in ('object', 'dict', 'json', 'form') if ck.thorough and n % 10 == 0 else [('object', 'dict', 'json', 'form')[n % 4]]:
                ck.begin((rname, how, tn, a, e))
                msg = transport(cls, dict(outside, request=tok), how)
                v = verdict(msg, keyjar=kj, **args_of(a, e))
                ok = v is True
                if base is None:
                    base = ok
                    if tn == '%s/%s' % (alg, enc) or tn == 'RS256':
                        ck.expect(ok, '%s: good object' % rname, 'verdict %s' % v)
                met = wants(a, alg) and wants(e, enc)
                ck.case((rname, how, tn, repr(a), repr(e)), 'accepted' if ok else 'refused')
                if met:
                    ck.expect(ok == base, '%s: met demand' % rname, lambda: 'demanded %r %r: %s, without a demand accepted: %r' % (a, e, v, base))
                else:
                    ck.expect(not ok, '%s: unmet demand' % rname, lambda: 'accepted although %r %r was demanded' % (a, e))
                    got = plain(msg.get('state'))
                    ck.expect(got == 'outside', '%s: refused object used' % rname, 'state is %r' % got)


def carrier(ck, name):
    cls, rest, slot = c11.carrier(name)
    now = NOW + 17
    kj = keyjar(**{OP: ['rsa_op'], 'evil': ['rsa_evil'], 'own': own()})
    claims = {'iss': OP, 'sub': 's', 'aud': ['a'], 'iat': now}
    if slot == 'logout_token':
        claims.update(jti='j', events={c11.EV: {}})
    else:
        claims['exp'] = now + 100
    n = 0
    target.shim().clock(now + 0.5)
    try:
        for tn, (alg, enc, tok) in tokens(claims, 'rsa_op').items():
            base = None
            for a, e in [(ABSENT, ABSENT)] + demands(True):
                n += 1
                how = ('object', 'dict', 'json', 'form')[n % 4]
                args = {'keyjar': kj, 'client_id': 'a', 'iss': OP} if name != 'AuthorizationRequest' else {'keyjar': kj}
                args['allow_sign_alg_none'] = tn == 'unsigned'
                ck.begin((name, how, tn, a, e))
                v = verdict(transport(cls, dict(rest, **{slot: tok}), how), **dict(args, **args_of(a, e)))
                ok = v is True
                if base is None:
                    base = ok
                    if tn == 'RS256':
                        ck.expect(ok, '%s: good token' % name, 'verdict %s' % v)
                met = wants(a, alg) and wants(e, enc)
                ck.case((name, how, tn, repr(a), repr(e)), 'accepted' if ok else 'refused')
                if met:
                    ck.expect(ok == base, '%s: met demand' % name, lambda: 'demanded %r %r: %s, without a demand accepted: %r' % (a, e, v, base))
                else:
                    ck.expect(not ok, '%s: unmet demand' % name, lambda: 'accepted although %r %r was demanded' % (a, e))
    finally:
        target.shim().clock_off()


def run(ck, shard):
    {'jwt': jwt, 'request': request, 'carrier': carrier}[shard[0]](ck, shard[1])
