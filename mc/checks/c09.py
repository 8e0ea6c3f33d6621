"""Full product over everything the ID Token rules mention (issuer, subject, audience, authorised party, nonce, times around
every boundary that skew and storage time create) under a virtual clock, for the bare ID Token and for the same token, signed,
inside every message that carries one. Verdicts are compared with a decision table."""
import itertools
import os
import time

from mc import target
from mc.kit import ABSENT, NOW, keyjar, lists_of, near, product, sign, transport, verdict

TECHNIQUE = 'bounded exhaustive enumeration of claim sets x receivers x clock positions against a decision table'
LEVEL = 'model_checking'
BOUNDS = {'quick': 'bare: 3 iss x 2 sub x 7 aud x 4 azp x 3 nonce x 5 exp x 5 iat x 72 receivers; 4 clocks/zones; inside 7 carriers: 2 iss x 6 aud x 4 azp x '
                   '3 nonce x 3 exp x 3 iat, pairwise with the receivers; all required claims left out one by one; every pair of verifications of one message (receiver, clock and token may change in between); accepted and refused contents beside every other parameter',
          'thorough': 'full product inside the carriers too'}
FLOOR = {'quick': 500000, 'thorough': 2000000}

OP, EVIL = 'https://op.example.com', 'https://evil.example.com'
AUD = [['a'], 'a', ['b'], ['a', 'b'], ['b', 'a'], ['aa'], ['b', 'c']]
AZP = [ABSENT, 'a', 'b', 'c']
NONCE = [ABSENT, 'n', 'N']
CLIENT = [ABSENT, 'a', 'b']
SKEWS = [ABSENT, 0, 7]
STORES = [ABSENT, 0, 60]
DEFAULT_STORE = 4 * 3600
# where the clock stands and where the host is
CLOCKS = [(NOW + 17, 'UTC', 0.5), (1656633600, 'Europe/Stockholm', 0.999999), (2 ** 31 + 3, 'America/New_York', 0.0), (1583020799, 'Asia/Kolkata', 0.01)]


def rules(c, args, now):
    for r in ('iss', 'sub', 'aud', 'exp', 'iat'):
        if r not in c:
            return False
    aud = c['aud'] if isinstance(c['aud'], list) else [c['aud']]
    if 'iss' in args and args['iss'] != c['iss']:
        return False
    if 'client_id' in args and args['client_id'] not in aud:
        return False
    if len(aud) > 1 and c.get('azp') not in aud:
        return False
    if 'azp' in c and 'client_id' in args and c['azp'] != args['client_id']:
        return False
    if 'nonce' in c and 'nonce' in args and c['nonce'] != args['nonce']:
        return False
    moment = now - args.get('skew', 0)
    return moment <= c['exp'] and moment <= c['iat'] + args.get('nonce_storage_time', DEFAULT_STORE)


def around(point, more):
    return [point - 1, point, point + 1] + more


CARRIERS = ('AccessTokenResponse', 'AuthorizationResponse', 'RefreshSessionRequest', 'RefreshSessionResponse', 'CheckSessionRequest',
            'MessageWithIdToken', 'EndSessionRequest')


def carrier(name):
    from oidcmsg import oidc
    from oidcmsg.oidc import session
    cls = getattr(session, name, None) or getattr(oidc, name)
    rest = {'AccessTokenResponse': {'access_token': 'at', 'token_type': 'Bearer'}, 'AuthorizationResponse': {'state': 's'},
            'RefreshSessionRequest': {'redirect_url': 'https://rp/x', 'state': 's'}, 'RefreshSessionResponse': {'state': 's'},
            'EndSessionRequest': {'post_logout_redirect_uri': 'https://rp/y'}}.get(name, {})
    slot = 'id_token_hint' if name == 'EndSessionRequest' else 'id_token'
    return cls, rest, slot


def shards(tier):
    res = [('bare', k, s, t) for k in range(len(CLOCKS)) for s in range(3) for t in range(3)]
    res += [('in', c, s, t) for c in CARRIERS for s in range(3) for t in range(2)]
    return [('beside',)] + res + [('left out',), ('near',)] + [('twice', c) for c in CARRIERS + ('IdToken',)]


def receivers(skew, store):
    return list(product({'client_id': CLIENT, 'iss': [ABSENT, OP], 'nonce': [ABSENT, 'n'], 'skew': [skew], 'nonce_storage_time': [store]}))


def run(ck, shard):
    if shard[0] == 'beside':
        from mc import bystanders
        return bystanders.run(ck, 'C09')
    from oidcmsg.oidc import IdToken
    sh = target.shim()
    tz = os.environ.get('TZ')
    try:
        if shard[0] == 'bare':
            now, zone, frac = CLOCKS[shard[1]]
            os.environ['TZ'] = zone
            time.tzset()
            sh.clock(now + frac)
            skew, store = SKEWS[shard[2]], STORES[shard[3]]
            point = now - (0 if skew is ABSENT else skew)
            keep = DEFAULT_STORE if store is ABSENT else store
            full = ck.thorough or shard[1] == 0
            t = {'iss': [OP, EVIL, OP + '/'] if full else [OP], 'sub': ['s', ABSENT] if full else ['s'], 'aud': AUD if full else AUD[:4], 'azp': AZP,
                 'nonce': NONCE, 'exp': around(point, [ABSENT, point + 10 ** 6, 0]), 'iat': around(point - keep, [ABSENT, now + 10 ** 5, 0])}
            rs = receivers(skew, store)
            n = 0
            for c in product(t):
                m = IdToken(**c)
                for args in rs:
                    n += 1
                    if n % 16 == 0:
                        ck.begin((zone, now, c, args))
                    else:
                        ck.current = (zone, now, c, args)
                    v = verdict(m, **args)
                    exp = rules(c, args, now)
                    ck.case((shard[1], repr(c), repr(args)), 'accepted' if v is True else 'refused')
                    if (v is True) != exp:
                        ck.fail('bare ID token %s' % ('accepted' if v is True else 'refused'), 'verdict %s, expected %s' % (v, exp))
            return
        now = NOW + 17
        sh.clock(now + 0.5)
        # the receivers hold the keys of both issuers; EVIL is just another one here
        kj = keyjar(**{OP: ['oct_op', 'ec_op'], EVIL: ['oct_evil', 'ec_evil']})
        keys = {OP: 'oct_op', EVIL: 'oct_evil'}
        if shard[0] == 'in':
            cls, rest, slot = carrier(shard[1])
            skew, store = SKEWS[shard[2]], STORES[shard[3] + (1 if shard[2] == 2 else 0)]
            point = now - (0 if skew is ABSENT else skew)
            keep = DEFAULT_STORE if store is ABSENT else store
            t = {'iss': [OP, EVIL], 'sub': ['s'], 'aud': AUD[:6], 'azp': AZP, 'nonce': NONCE, 'exp': around(point, []), 'iat': around(point - keep, [])}
            rs = receivers(skew, store)
            for n, c in enumerate(product(t)):
                tok = sign(c, keys[c['iss']], 'HS256')
                how = ('object', 'dict', 'json', 'form')[n % 4]
                for k, args in enumerate(rs):
                    if not ck.thorough and (n // 3 + k) % 4 and (c['exp'] > point or c['iat'] > point - keep):
                        continue
                    ck.begin((shard[1], how, c, args))
                    m = transport(cls, dict(rest, **{slot: tok}), how)
                    v = verdict(m, keyjar=kj, **args)
                    exp = rules(c, args, now)
                    ck.case((shard[1], repr(c), repr(args)), 'accepted' if v is True else 'refused')
                    ck.expect((v is True) == exp, '%s %s' % (shard[1], 'accepted' if v is True else 'refused'), 'verdict %s, expected %s' % (v, exp))
            return
        if shard[0] == 'near':
            # almost the right client, issuer or nonce, and long audiences
            me, op, no = 'Client_1/é', OP, 'n-0S6_WzA2Mj+/=é'
            base = {'iss': op, 'sub': 's', 'aud': [me], 'exp': now + 5, 'iat': now, 'nonce': no}
            cases = []
            for _, l in lists_of(me):
                cases += [(dict(base, aud=l, **z), {'client_id': me}) for z in ({'azp': me}, {}, {'azp': l[0]}, {'azp': l[-1]}, {'azp': 'other'})]
            for x in near(me):
                cases += [(dict(base, aud=a), {'client_id': e}) for a in (x, [x], [me]) if a != x or ' ' not in x for e in (me, x)]
                cases += [(dict(base, aud=[me, 'o'], azp=x), {'client_id': me}), (dict(base, azp=x), {'client_id': me}), (dict(base, aud=[me, x], azp=x), {'client_id': me}),
                          (dict(base, aud=[me, 'o'], azp=x), {}), (dict(base, aud=[x, 'o'], azp=me), {})]
            for x in near(no):
                cases += [(dict(base, nonce=x), {'nonce': no}), (dict(base, nonce=no), {'nonce': x}), (dict(base, nonce=x), {'nonce': x})]
            for x in near(op):
                cases += [(dict(base, iss=x), {'iss': op}), (dict(base, iss=op), {'iss': x}), (dict(base, iss=x), {'iss': x})]
            for n, (c, args) in enumerate(cases):
                exp = rules(c, args, now)
                for how in ('object', 'json', 'dict'):
                    ck.begin(('IdToken', how, c, args))
                    v = verdict(transport(IdToken, c, how), **args)
                    ck.case((how, repr(c), repr(args)), 'accepted' if v is True else 'refused')
                    ck.expect((v is True) == exp, 'near ID token %s' % ('accepted' if v is True else 'refused'), 'verdict %s, expected %s' % (v, exp))
                if c['iss'] == OP:
                    tok = sign(c, 'oct_op', 'HS256')
                    for name in CARRIERS:
                        cls, rest, slot = carrier(name)
                        ck.begin((name, c, args))
                        v = verdict(transport(cls, dict(rest, **{slot: tok}), ('object', 'form', 'json')[n % 3]), keyjar=kj, **args)
                        ck.case((name, repr(c), repr(args)), 'accepted' if v is True else 'refused')
                        ck.expect((v is True) == exp, 'near %s %s' % (name, 'accepted' if v is True else 'refused'), 'verdict %s, expected %s' % (v, exp))
            return
        if shard[0] == 'twice':
            # the same message verified again: by another receiver, later, with another token in it
            good = {'iss': OP, 'sub': 's', 'aud': ['a'], 'exp': now + 5, 'iat': now, 'nonce': 'n'}
            pool = [good, dict(good, nonce='N'), dict(good, aud=['b']), dict(good, exp=now - 1), dict(good, iss=EVIL)]
            toks = [sign(c, keys[c['iss']], 'HS256') for c in pool]
            rs = receivers(ABSENT, ABSENT)
            for (i, c1), (j, c2) in itertools.product(enumerate(pool), repeat=2):
                if i and j and not ck.thorough and i != j:
                    continue
                for a1, a2 in itertools.product(rs, repeat=2):
                    for later in (0, 6):
                        ck.begin((shard[1], c1, a1, c2, a2, later))
                        sh.clock(now + 0.5)
                        if shard[1] == 'IdToken':
                            m = IdToken(**c1)
                        else:
                            cls, rest, slot = carrier(shard[1])
                            m = cls(**dict(rest, **{slot: toks[i]}))
                        v1 = verdict(m, keyjar=kj, **a1)
                        sh.clock(now + later + 0.5)
                        if i != j:
                            if shard[1] == 'IdToken':
                                m.update(c2)
                            else:
                                m[slot] = toks[j]
                        v2 = verdict(m, keyjar=kj, **a2)
                        e1, e2 = rules(c1, a1, now), rules(c2, a2, now + later)
                        ck.case(('twice', shard[1], i, j, repr(a1), repr(a2), later), '%s then %s' % (v1 is True, v2 is True))
                        ck.expect((v1 is True) == e1, '%s first verdict' % shard[1], 'verdict %s, expected %s' % (v1, e1))
                        ck.expect((v2 is True) == e2, '%s second verdict %s' % (shard[1], 'accepted' if v2 is True else 'refused'),
                                  'verdict %s, expected %s (first: %s)' % (v2, e2, v1))
            return
        good = {'iss': OP, 'sub': 's', 'aud': ['a'], 'exp': now + 5, 'iat': now, 'nonce': 'n'}
        for name in CARRIERS:
            cls, rest, slot = carrier(name)
            for drop in [()] + [(k,) for k in good] + [('exp', 'iat'), ('iss', 'sub')]:
                c = {k: x for k, x in good.items() if k not in drop}
                for alg, kn in (('HS256', 'oct_op'), ('ES256', 'ec_op')):
                    tok = sign(c, kn, alg)
                    for args in receivers(ABSENT, ABSENT) + receivers(7, 60):
                        for how in ('object', 'dict', 'json', 'form'):
                            ck.begin((name, how, alg, c, args))
                            v = verdict(transport(cls, dict(rest, **{slot: tok}), how), keyjar=kj, **args)
                            exp = rules(c, args, now)
                            ck.case((name, how, alg, repr(c), repr(args)), 'accepted' if v is True else 'refused')
                            ck.expect((v is True) == exp, '%s claims left out %s' % (name, 'accepted' if v is True else 'refused'),
                                      'verdict %s, expected %s' % (v, exp))
    finally:
        sh.clock_off()
        if tz is not None:
            os.environ['TZ'] = tz
        time.tzset()
