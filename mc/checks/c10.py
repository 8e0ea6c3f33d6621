"""Packing: every combination of carried access token / code / stale hashes x signature algorithm x lifetime; the signed JWT is
decoded by hand and its hashes recomputed with hashlib. Checking: every combination of code and token in an authorization
response x hash claims that are right, missing, of something else or made the wrong way x algorithm x transport."""
import base64
import hashlib
import json

from mc import target
from mc.kit import ABSENT, NOW, key, keyjar, product, sign, transport, verdict

TECHNIQUE = 'bounded exhaustive enumeration of token/code/hash/algorithm combinations against an independent hash computation'
LEVEL = 'model_checking'
BOUNDS = {'quick': '12 algorithms; pack: 6 tokens x 6 codes x stale hashes x lifetimes; check: 3 tokens x 3 codes x 12 x 12 hash claims, 4 transports; accepted and refused contents beside every other parameter',
          'thorough': 'same with every transport for every combination'}
FLOOR = {'quick': 15000, 'thorough': 50000}

OP = 'https://op.example.com'
ALGS = {'HS256': 'oct_op', 'HS384': 'oct_op', 'HS512': 'oct_op', 'RS256': 'rsa_op', 'RS384': 'rsa_op', 'RS512': 'rsa_op', 'PS256': 'rsa_op',
        'PS384': 'rsa_op', 'PS512': 'rsa_op', 'ES256': 'ec_op', 'ES384': 'ec384_op', 'ES512': 'ec521_op'}
TEXTS = ['jHkWEdUXMU1BwAsC4vtUsZwnNvTIxEl0z9K3vx5KF0Y', 'x', 'a.b-c_d~e+f/g==', 'z' * 4000, 'with space "\\', 'Qcb0Orv1zh30vL1MPRsbm-diHiMwcLyZvn1arpZv-Jxf_11jnpEX3Tgfvk']


def half(text, bits, part=None):
    d = hashlib.new('sha%d' % bits, text.encode()).digest()
    d = d[:len(d) // 2] if part is None else part(d)
    return base64.urlsafe_b64encode(d).decode().rstrip('=')


def wrong_ways(text, other, bits):
    """hash claims: right first, then wrong ones"""
    res = {'right': half(text, bits), 'absent': ABSENT, 'of something else': half(other, bits), 'null': None, 'empty': '',
           'whole': half(text, bits, lambda d: d), 'right half': half(text, bits, lambda d: d[len(d) // 2:]),
           'padded': half(text, bits) + '=', 'cut': half(text, bits)[:-1], 'the value itself': text, 'other case': half(text, bits).swapcase()}
    for b in (256, 384, 512):
        if b != bits:
            res['sha%d' % b] = half(text, b)
    return res


def shards(tier):
    return [('beside',)] + [('pack', a) for a in ALGS] + [('check', a) for a in ALGS] + [('both', a) for a in ALGS]


def payload(jwt):
    b = jwt.split('.')[1]
    return json.loads(base64.urlsafe_b64decode(b + '=' * (-len(b) % 4)))


def run(ck, shard):
    if shard[0] == 'beside':
        from mc import bystanders
        return bystanders.run(ck, 'C10')
    from oidcmsg.oidc import AuthorizationResponse, IdToken
    alg = shard[1]
    bits = int(alg[-3:])
    kname = ALGS[alg]
    now = NOW + 17
    target.shim().clock(now + 0.5)
    kj = keyjar(**{OP: [kname]})
    keys = [key(kname)]
    base = {'iss': OP, 'sub': 's', 'aud': ['a'], 'exp': now + 100, 'iat': now}
    try:
        if shard[0] == 'pack':
            t = {'access_token': [ABSENT] + TEXTS, 'code': [ABSENT] + TEXTS, 'at_hash': [ABSENT, 'stale'], 'c_hash': [ABSENT, 'stale'],
                 'nonce': [ABSENT, 'n']}
            for c in product(t):
                for kw in ({}, {'lifetime': 300}, {'lev': 2}):
                    ck.begin((alg, c, kw))
                    m = IdToken(**dict(base, **c))
                    got = payload(m.to_jwt(key=keys, algorithm=alg, **kw))
                    exp = dict(base, exp=now + kw['lifetime'] if 'lifetime' in kw else base['exp'], iat=now)
                    exp.update({k: v for k, v in c.items() if k not in ('access_token', 'code')})
                    for a, h in (('access_token', 'at_hash'), ('code', 'c_hash')):
                        if a in c:
                            exp[h] = half(c[a], bits)
                    ck.case((alg, repr(c), repr(kw)), 'packed %d' % (('access_token' in c) + ('code' in c)))
                    ck.expect(got == exp, 'packed ID token', lambda: 'the JWT holds %r, expected %r' % (got, exp))
            return
        if shard[0] == 'both':
            # sender and receiver together: pack with (token, code), send next to (token, code)
            some = [ABSENT] + TEXTS[:3]
            for c in product({'access_token': some, 'code': some}):
                tok = IdToken(**dict(base, **c)).to_jwt(key=keys, algorithm=alg)
                for r in product({'access_token': some, 'code': some}):
                    ck.begin((alg, c, r))
                    v = verdict(AuthorizationResponse(id_token=tok, **r), keyjar=kj, client_id='a', iss=OP)
                    exp = all(c.get(k) == x for k, x in r.items())
                    ck.case(('both', alg, repr(c), repr(r)), 'accepted' if v is True else 'refused')
                    ck.expect((v is True) == exp, 'sent together %s' % ('accepted' if v is True else 'refused'), 'verdict %s, expected %s' % (v, exp))
            return
        for tok, code in [(a, b) for a in (ABSENT, TEXTS[0], TEXTS[2]) for b in (ABSENT, TEXTS[5], TEXTS[1])]:
            at = wrong_ways(TEXTS[0] if tok is ABSENT else tok, TEXTS[5] if code is ABSENT else code, bits)
            ch = wrong_ways(TEXTS[5] if code is ABSENT else code, TEXTS[0] if tok is ABSENT else tok, bits)
            for n, (a, ah) in enumerate(at.items()):
                for k, (c, h) in enumerate(ch.items()):
                    claims = dict(base)
                    if ah is not ABSENT:
                        claims['at_hash'] = ah
                    if h is not ABSENT:
                        claims['c_hash'] = h
                    jwt = sign(claims, kname, alg)
                    kw = {'id_token': jwt, 'state': 's', 'token_type': 'Bearer'}
                    if tok is not ABSENT:
                        kw['access_token'] = tok
                    if code is not ABSENT:
                        kw['code'] = code
                    hows = ('object', 'dict', 'json', 'form')
                    for how in hows if ck.thorough or a == 'right' or c == 'right' else [hows[(n + k) % 4]]:
                        ck.begin((alg, how, tok, code, a, c))
                        v = verdict(transport(AuthorizationResponse, kw, how), keyjar=kj, client_id='a', iss=OP)
                        exp = (tok is ABSENT or a == 'right') and (code is ABSENT or c == 'right')
                        ck.case((alg, how, tok, code, a, c), 'accepted' if v is True else 'refused')
                        ck.expect((v is True) == exp, 'access token hash %s, code hash %s' % ('-' if tok is ABSENT else a, '-' if code is ABSENT else c),
                                  'verdict %s, expected %s' % (v, exp))
    finally:
        target.shim().clock_off()
