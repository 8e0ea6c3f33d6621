"""Full product over everything the logout rules mention, under a virtual clock: logout tokens directly and inside signed,
wrongly signed, unsigned and encrypted back-channel requests; all end-session parameter combinations. Verdicts are
compared with decision tables."""
from mc import target
from mc.kit import ABSENT, NOW, encrypt, keyjar, lists_of, near, product, sign, token, transport, unsigned, verdict

TECHNIQUE = 'bounded exhaustive enumeration of claim products and token protections against a decision table'
LEVEL = 'model_checking'
BOUNDS = {'quick': 'claims: 3 iss x 5 aud x iat boundaries of 3 skews x jti x sub x sid x nonce x 11 events; 13 protections x 24 claim sets; '
                   'end session: 10 hints x redirect x state; accepted and refused contents beside every other parameter',
          'thorough': 'full product'}
FLOOR = {'quick': 50000, 'thorough': 300000}

EV = 'http://schemas.openid.net/event/backchannel-logout'
EVENTS = [{EV: {}}, ABSENT, {}, {EV: {'x': 1}}, {EV + 'x': {}}, {EV: {}, 'http://other': {}}, {'http://other': {}}, {EV: None}, {EV: []},
          {EV: ''}, {EV: 'x'}, {EV: False}, {EV[:-1]: {}}, {EV.upper(): {}}]
AUD = [['a'], 'a', ['b', 'a'], ['aa'], ABSENT]
ISS = ['https://op.example.com', 'https://op.example.com/', ABSENT]
SKEWS = [ABSENT, 0, 10]


def rules(c, args, now):
    for r in ('iss', 'aud', 'iat', 'jti', 'events'):
        if r not in c:
            return False
    if c.get('sub') is None and c.get('sid') is None:
        return False
    if 'nonce' in c or c['events'] != {EV: {}}:
        return False
    aud = c['aud'] if isinstance(c['aud'], list) else [c['aud']]
    if 'aud' in args and args['aud'] not in aud:
        return False
    if 'iss' in args and args['iss'] != c['iss']:
        return False
    return c['iat'] <= now + args.get('skew', 0)


def shards(tier):
    return [('beside',)] + [('tok', e, s) for e in range(len(EVENTS)) for s in range(len(SKEWS))] + [('bc', i) for i in range(5)] + [('end',), ('near',)]


def judge(ck, m, args, exp, key, sig):
    v = verdict(m, **args)
    ck.case(key, 'accepted' if v is True else 'refused')
    ck.expect((v is True) == exp, '%s %s' % (sig, 'accepted' if v is True else 'refused'), 'verdict %s, expected %s' % (v, exp))


def run(ck, shard):
    if shard[0] == 'beside':
        from mc import bystanders
        return bystanders.run(ck, 'C16')
    from oidcmsg.oidc.session import BackChannelLogoutRequest, EndSessionRequest, LogoutToken
    now = NOW + 17
    target.shim().clock(now + 0.5)
    try:
        if shard[0] == 'tok':
            skew = SKEWS[shard[2]]
            s = 0 if skew is ABSENT else skew
            ev = EVENTS[shard[1]]
            rich = ck.thorough or shard[1] == 0
            t = {'iss': ISS, 'aud': AUD, 'iat': [ABSENT, 0, -1, now, now + s, now + s + 1, now + 10 ** 6] if rich else [now, now + s + 1],
                 'jti': ['j', ABSENT], 'sub': ['s', ABSENT, None], 'sid': ['x', ABSENT, None], 'nonce': [ABSENT, 'n', 0, False, {}, ['n']] if rich and shard[2] == 0 else [ABSENT, 'n'], 'events': [ev],
                 'extra': [ABSENT, 'e'] if rich else [ABSENT]}
            at = {'aud': [ABSENT, 'a', 'b'], 'iss': [ABSENT, ISS[0]], 'skew': [skew]}
            n = 0
            for c in product(t):
                for args in product(at):
                    n += 1
                    how = 'json' if n % 5 == 0 else 'object'
                    ck.begin((how, c, args))
                    judge(ck, transport(LogoutToken, c, how), args, rules(c, args, now), (how, repr(c), repr(args)), 'logout token')
            return
        iss = ISS[0]
        kj = keyjar(**{iss: ['rsa_op', 'ec_op', 'oct_op'], 'https://evil.example.com': ['rsa_evil', 'ec_evil'], 'own': ['oct_op', 'rsa_rp_enc', 'ec_rp']})
        good = {'iss': iss, 'aud': ['a'], 'iat': now, 'jti': 'j', 'sub': 's', 'events': {EV: {}}}
        if shard[0] == 'near':
            # almost the right audience, issuer or event, and long audiences
            me = 'Client_1/é'
            base = dict(good, aud=[me])
            cases = [(dict(base, aud=l), {'aud': me}) for _, l in lists_of(me)]
            for x in near(me):
                cases += [(dict(base, aud=a), {'aud': e}) for a in (x, [x], ['o', x], [me]) if a != x or ' ' not in x for e in (me, x)]
            for x in near(iss):
                cases += [(dict(base, iss=x), {'iss': iss}), (dict(base, iss=x), {'iss': x}), (base, {'iss': x})]
            cases += [(dict(base, events={x: {}}), {}) for x in near(EV)]
            for x in near(EV) + ['x', 'http://other', '']:
                cases += [(dict(base, events=dict(l)), {}) for l in ([(EV, {}), (x, {})], [(x, {}), (EV, {})], [(x, {}), (EV, {}), ('y', {})], [(EV, {}), (x, {'a': 1})])]
            cases += [(dict(base, **{x: 'n'}), {}) for x in near('nonce') if x.isidentifier()]
            cases += [(dict([('nonce', 'n')] + list(base.items())), {})]
            for n, (c, args) in enumerate(cases):
                for how in ('object', 'json', 'dict'):
                    ck.begin((how, c, args))
                    judge(ck, transport(LogoutToken, c, how), args, rules(c, args, now), (how, repr(c), repr(args)), 'logout token')
                if c['iss'] == iss:
                    ck.begin(('back-channel', c, args))
                    judge(ck, BackChannelLogoutRequest(logout_token=sign(c, 'oct_op', 'HS256')), dict(args, keyjar=kj), rules(c, args, now), ('bc', repr(c), repr(args)), 'back-channel near')
            return
        if shard[0] == 'bc':
            sets = [good, dict(good, sid='x'), dict(good, aud='a'), dict(good, nonce='n'), dict(good, iat=now + 1), dict(good, iat=now + 11),
                    dict(good, aud=['b']), dict(good, iss='https://evil.example.com'), dict(good, iss='https://nobody.example.com'),
                    dict(good, events={}), dict(good, events={EV: {'a': 1}}), dict(good, events={'x': {}}), dict(good, sub=None),
                    dict(good, iat=now - 10 ** 6), dict(good, extra={'a': [1]})]
            for k in good:
                sets.append({x: y for x, y in good.items() if x != k})
            t = {'aud': [ABSENT, 'a', 'c'], 'iss': [ABSENT, iss, 'https://evil.example.com'], 'skew': [ABSENT, 10]}
            prots = ['RS256', 'ES256', 'HS256', 'PS256', 'RS256 foreign', 'ES256 foreign', 'none', 'none signed', 'tampered body', 'cut', 'enc only',
                     'signed+enc', 'none+enc', 'garbage', 'mac with public key']
            for n, c in enumerate(sets):
                if n % 5 != shard[1]:
                    continue
                for prot in prots:
                    if prot == 'HS256' and c.get('iss') == 'https://evil.example.com':
                        continue    # a MAC with the receiver's own secret: may count for every issuer it knows
                    auth, tok = protect(prot, c)
                    if auth and c.get('iss') != iss:
                        auth = False       # signed by the provider in the name of another
                    if 'foreign' in prot:
                        auth = c.get('iss') == 'https://evil.example.com'
                    for args in product(t):
                        ck.begin((prot, c, args))
                        exp = auth and rules(c, args, now)
                        judge(ck, BackChannelLogoutRequest(logout_token=tok), dict(args, keyjar=kj), exp, (prot, repr(c), repr(args)), 'back-channel ' + prot)
                        if n == 0:
                            judge(ck, BackChannelLogoutRequest().from_urlencoded(BackChannelLogoutRequest(logout_token=tok).to_urlencoded()),
                                  dict(args, keyjar=kj), exp, (prot, repr(c), repr(args), 'form'), 'back-channel ' + prot)
                            if prot.startswith('none'):
                                # explicitly allowed by the receiver
                                judge(ck, BackChannelLogoutRequest(logout_token=tok), dict(args, keyjar=kj, allow_sign_alg_none=True),
                                      rules(c, args, now) and prot != 'none signed', (prot, repr(args), 'allowed'), 'back-channel allowed ' + prot) \
                                    if prot != 'none signed' else None
                            if auth:
                                for alg in ('RS256', 'ES256', 'HS256', 'PS256', 'none'):
                                    real = 'RS256' if prot == 'signed+enc' else prot
                                    judge(ck, BackChannelLogoutRequest(logout_token=tok), dict(args, keyjar=kj, allowed_sign_alg=alg),
                                          exp and alg == real, (prot, repr(args), alg), 'back-channel allowed algorithm')
            judge(ck, BackChannelLogoutRequest(), {'keyjar': kj}, False, 'no token', 'back-channel without token')
            return
        idt = {'iss': iss, 'sub': 's', 'aud': ['a'], 'exp': now + 100, 'iat': now - 10}
        hints = {'absent': (None, ABSENT), 'valid': (True, sign(idt, 'rsa_op', 'RS256')), 'valid ec': (True, sign(idt, 'ec_op', 'ES256')),
                 'expired': (False, sign(dict(idt, exp=now - 1), 'rsa_op', 'RS256')), 'foreign': (False, sign(idt, 'rsa_evil', 'RS256')),
                 'none': (False, unsigned(idt)), 'not for me': ('aud', sign(dict(idt, aud=['b']), 'rsa_op', 'RS256')), 'garbage': (False, 'x.y.z'),
                 'blank': (None, ''), 'no sub': (False, sign({k: v for k, v in idt.items() if k != 'sub'}, 'rsa_op', 'RS256')),
                 'unknown issuer': (False, sign(dict(idt, iss='https://nobody'), 'rsa_op', 'RS256'))}
        for hn, (hok, h) in hints.items():
            for p in product({'id_token_hint': [h], 'post_logout_redirect_uri': [ABSENT, 'https://rp/x', ''], 'state': [ABSENT, 's'], 'extra': [ABSENT, 'e']}):
                for args in product({'client_id': [ABSENT, 'a'], 'iss': [ABSENT, iss], 'skew': [ABSENT, 0]}):
                    for how in ('object', 'dict', 'json', 'form'):
                        if hn == 'garbage' and how != 'object':
                            continue
                        ck.begin((hn, how, p, args))
                        if hok is None:
                            exp = not p.get('post_logout_redirect_uri')
                        elif hok == 'aud':
                            exp = 'client_id' not in args
                        else:
                            exp = hok
                        judge(ck, transport(EndSessionRequest, p, how), dict(args, keyjar=kj), exp, (hn, how, repr(p), repr(args)), 'end session ' + hn)
    finally:
        target.shim().clock_off()


def protect(prot, c):
    """(authentic if issuer is the provider, token)"""
    if prot in ('RS256', 'PS256'):
        return True, sign(c, 'rsa_op', prot)
    if prot == 'ES256':
        return True, sign(c, 'ec_op', prot)
    if prot == 'HS256':
        return True, sign(c, 'oct_op', prot)
    if prot == 'RS256 foreign':
        return False, sign(c, 'rsa_evil', 'RS256')
    if prot == 'ES256 foreign':
        return False, sign(c, 'ec_evil', 'ES256')
    if prot == 'none':
        return False, unsigned(c)
    good = sign(c, 'rsa_op', 'RS256')
    h, b, s = good.split('.')
    if prot == 'none signed':
        return False, '.'.join((unsigned(c).split('.')[0], b, s))
    if prot == 'tampered body':
        return False, '.'.join((h, sign(dict(c, sub='victim'), 'rsa_op', 'RS256').split('.')[1], s))
    if prot == 'cut':
        return False, h + '.' + b + '.'
    if prot == 'enc only':
        import json
        return False, encrypt(json.dumps(c), 'rsa_rp_enc', 'RSA-OAEP')
    if prot == 'signed+enc':
        return True, encrypt(good, 'rsa_rp_enc', 'RSA-OAEP', cty='JWT')
    if prot == 'none+enc':
        return False, encrypt(unsigned(c), 'rsa_rp_enc', 'RSA-OAEP', cty='JWT')
    if prot == 'mac with public key':
        from mc import kit
        import json
        from cryptojwt.jwk.hmac import SYMKey
        from cryptojwt.jws.jws import JWS
        n = kit.raw_keys()['rsa_op']['n']
        return False, JWS(json.dumps(c), alg='HS256').sign_compact([SYMKey(key=n)])
    return False, 'not.a.token'
