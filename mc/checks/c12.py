"""All operation sequences up to a depth on one token-carrying message: putting a good, another, a wrongly signed, an unsigned
or an already parsed token in or taking it out, planting forged verified entries (also inside signed request objects), sending
the message as JSON, form or dictionary, verifying it. After every successful verification each verified entry of the type has
to hold exactly the content of the token that was in the message when verify() was called, or nothing."""
import itertools
import json

from mc import target
from mc.checks.c05 import OP
from mc.checks.c11 import EV, carrier
from mc.kit import NOW, keyjar, sign, unsigned, verdict

TECHNIQUE = 'exhaustive enumeration of operation sequences on the real messages against a reference model of the verified entries'
LEVEL = 'model_checking'
BOUNDS = {'quick': '12 carriers; all sequences of 3 operations (of 11-17) followed by verify()', 'thorough': 'all sequences of 4 operations'}
FLOOR = {'quick': 15000, 'thorough': 100000}

EVIL = 'https://evil.example.com'
CARRIERS = ('AccessTokenResponse', 'AuthorizationResponse', 'RefreshSessionRequest', 'RefreshSessionResponse', 'CheckSessionRequest', 'MessageWithIdToken',
            'EndSessionRequest', 'BackChannelLogoutRequest', 'AuthorizationRequest', 'OpenIDRequest', 'JWTSecuredAuthorizationRequest',
            'PushedAuthorizationRequest')
V = '__verified_'
FORGED = {'iss': OP, 'sub': 'victim', 'aud': ['a'], 'exp': 10 ** 10, 'iat': NOW}


def shards(tier):
    return [(c, k) for c in CARRIERS for k in range(4)]


def params(name):
    """token parameter -> names of the verified entries"""
    if name in ('AuthorizationRequest', 'OpenIDRequest'):
        return {'request': [V + 'request'], 'id_token_hint': ['verified_id_token_hint', V + 'id_token_hint']}
    if name in ('JWTSecuredAuthorizationRequest', 'PushedAuthorizationRequest'):
        return {'request': [V + 'request']}
    slot = carrier(name)[2]
    return {slot: [V + slot]}


def plain(x):
    from oidcmsg.message import Message
    if isinstance(x, Message):
        return plain(x.to_dict())
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def normal(d):
    """spaces in lists are how a form writes them"""
    d = plain(d)
    if isinstance(d, dict):
        d = dict(d)
        for k in ('aud', 'scope', 'response_type'):
            if isinstance(d.get(k), str):
                d[k] = d[k].split(' ')
        if isinstance(d.get('events'), str):
            d['events'] = json.loads(d['events'])
    return d


def run(ck, shard):
    from oidcmsg import oauth2, oidc
    name, part = shard
    now = NOW + 17
    target.shim().clock(now + 0.5)
    jwtreq = name in ('JWTSecuredAuthorizationRequest', 'PushedAuthorizationRequest')
    reqs = jwtreq or name in ('AuthorizationRequest', 'OpenIDRequest')
    if reqs:
        cls = getattr(oauth2, name) if jwtreq else getattr(oidc, name)
        rest = {'response_type': 'code', 'client_id': 'a', 'redirect_uri': 'https://rp/x', 'scope': ['openid'], 'state': 's'}
        if name.startswith('JWT'):
            rest['request_uri'] = 'https://rp/request'
    else:
        cls, rest, _ = carrier(name)
        # with it a request without hint is refused
        rest = {k: v for k, v in rest.items() if k != 'post_logout_redirect_uri'}
    kj = keyjar(**{OP: ['ec_op', 'oct_op'], EVIL: ['oct_evil'], 'a': ['oct_rp']})
    P = params(name)
    base = {'iss': OP, 'sub': 's', 'aud': ['a'], 'iat': now, 'exp': now + 100}
    if name == 'BackChannelLogoutRequest':
        base.update(jti='j', events={EV: {}})
    forged = {V + k: dict(FORGED) for k in ('id_token', 'id_token_hint', 'request', 'logout_token')}
    forged['verified_id_token_hint'] = dict(FORGED)
    other = dict(base, sub='t')
    idt = {'T1': sign(base, 'oct_op', 'HS256'), 'T2': sign(other, 'oct_op', 'HS256'), 'bad': sign(dict(base, sub='x'), 'oct_rp', 'HS256')}
    claims = {idt['T1']: base, idt['T2']: other}
    if reqs:
        ro = dict({k: v for k, v in rest.items() if k not in ('scope', 'request_uri')}, scope='openid', iss='a', nonce='n')
        objs = {'R1': ro, 'R2': dict(ro, state='other'), 'R forged': dict(ro, **forged), 'R hint': dict(ro, id_token_hint=idt['T2']),
                'R forged hint': dict(ro, **{n: FORGED for n in ('verified_id_token_hint', V + 'id_token_hint')})}
        toks = {'request': {k: sign(v, 'oct_rp', 'HS256') for k, v in objs.items()}}
        claims.update({toks['request'][k]: v for k, v in objs.items()})
        toks['request']['R bad'] = sign(ro, 'oct_evil', 'HS256')
        if not jwtreq:
            toks['id_token_hint'] = {'T1': idt['T1'], 'bad': idt['bad']}
    else:
        slot = list(P)[0]
        toks = {slot: dict(idt, unsigned=unsigned(base), claims=dict(base))}
    own = [n for names in P.values() for n in names]

    ops = [('set', p, k) for p in toks for k in toks[p]] + [('del', p) for p in toks]
    ops += [('forge', n) for n in own] + [('forge text', own[0]), ('forge message', own[0]), ('forge all',), ('json',), ('form',), ('verify',)]
    texts = {}
    for p in toks:
        for k, v in toks[p].items():
            texts[(p, k)] = v

    def verify(m, hist):
        before = {p: m.get(p) for p in P}
        v = verdict(m, keyjar=kj, client_id='a', iss=OP)
        if v is not True:
            return False
        tok = before.get('request') if reqs else None
        expect = {}
        for p, names in P.items():
            t = before[p]
            if p == 'id_token_hint' and isinstance(tok, str):
                t = claims.get(tok, {}).get('id_token_hint')   # the signed request replaces the outer one
            expect[p] = t
        for p, names in P.items():
            t = expect[p]
            have = [n for n in names if n in m]
            if not isinstance(t, str):
                ck.expect(not have, '%s: forged or stale %s' % (name, p), lambda: 'no such token in the message, but it holds %r' % {n: plain(m[n]) for n in have})
                continue
            if t not in claims:
                ck.fail('%s: unauthentic %s' % (name, p), 'accepted with a token that is not authentic')
                continue
            want = normal(claims[t])
            lean = {k: x for k, x in want.items() if k not in forged}
            if not have:
                ck.fail('%s: no verified %s' % (name, p), 'verified, but none of %r is there' % (names,))
            for n in have:
                got = normal(m[n])
                ck.expect(got in (want, lean), '%s: wrong verified %s' % (name, p), lambda: '%s holds %r, the token %r' % (n, got, want))
        return True

    def apply(m, op):
        """the message after op, None if the operation is refused"""
        from oidcmsg.message import Message
        from oidcmsg.oidc import IdToken
        if op[0] == 'set':
            m[op[1]] = texts[(op[1], op[2])]
        elif op[0] == 'del':
            if op[1] not in m:
                return None
            del m[op[1]]
        elif op[0] == 'forge':
            m[op[1]] = dict(FORGED)
        elif op[0] == 'forge text':
            m[op[1]] = 'x'
        elif op[0] == 'forge message':
            m[op[1]] = IdToken(**FORGED)
        elif op[0] == 'forge all':
            m.update(forged)
        elif op[0] == 'json':
            return cls().from_json(m.to_json())
        elif op[0] == 'form':
            m.lax = True
            return cls().from_urlencoded(m.to_urlencoded())
        return m

    depth = 4 if ck.thorough else 3
    try:
        firsts = [o for n, o in enumerate(ops) if n % 4 == part]
        for seq in itertools.product(firsts, *[ops] * (depth - 1)):
            ck.begin((name,) + seq)
            m = cls(**rest)
            seen = []
            for op in seq + (('verify',),):
                ck.pending += 1
                try:
                    if op[0] == 'verify':
                        seen.append('T' if verify(m, seq) else 'F')
                        continue
                    m = apply(m, op)
                except Exception:
                    m = None
                if m is None:
                    break
            ck.case((name,) + seq, 'refused' if m is None else ''.join(seen))
    finally:
        target.shim().clock_off()
