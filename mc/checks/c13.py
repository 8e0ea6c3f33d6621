"""Every way parameters can overlap between a request and a request object: merge() under every treatment and every white list,
and verification of every request type that takes request objects, with every protection of the object and every transport.
The parameters afterwards are compared with a three-line model (dictionary restriction and union)."""
import itertools

from mc import target
from mc.checks.c12 import plain
from mc.kit import ABSENT, NOW, b64, encrypt, key, keyjar, sign, token, transport, unsigned, verdict

TECHNIQUE = 'bounded exhaustive enumeration of parameter overlaps x treatments x object protections against a dictionary model'
LEVEL = 'model_checking'
BOUNDS = {'quick': 'merge: 5 types x 5^6 overlaps x (strict, lax, 3 white lists; all 64 white lists for 5^3 overlaps); verify: 4 types x 5^4 overlaps x '
                   '11 protections x transport; requests made by make_openid_request: 5 algorithms x 16 requests',
          'thorough': 'all white lists for all overlaps, all transports'}
FLOOR = {'quick': 200000, 'thorough': 500000}

TYPES = ('oauth2.AuthorizationRequest', 'oidc.AuthorizationRequest', 'oidc.OpenIDRequest', 'oauth2.JWTSecuredAuthorizationRequest',
         'oauth2.PushedAuthorizationRequest')
VALUES = {'client_id': ('a', 'b'), 'scope': (['openid'], ['openid', 'x']), 'state': ('s', 't'), 'redirect_uri': ('https://rp/1', 'https://rp/2'),
          'extra': ('e', {'k': [1]}), 'nonce': ('n', 'm'), 'response_type': (['code'], ['code', 'token']), 'max_age': (0, 9),
          'client_id_hint': ('h', 'i'), 'stat': ('st', 'ta'), 'redirect_uri2': ('https://rp/5', 'https://rp/6'), 'State': ('S', 'T'), 'x_scope': ('y', 'z'),
          'claims_locales': (['sv'], ['en', 'fi'])}
WAYS = range(5)       # nowhere, outside, inside, both the same, both different

FALSY = {'x_zero': (7, 0), 'x_false': (True, False), 'x_empty_list': (['q'], []), 'x_empty': ({'q': 1}, {}), 'x_null_inside': ('q', None), 'x_none': (0, 'q')}


def overlap(names, ways):
    out, ins = {}, {}
    for n, w in zip(names, ways):
        v = VALUES[n]
        if w in (1, 3, 4):
            out[n] = v[0]
        if w in (2, 3, 4):
            ins[n] = v[1] if w == 4 else v[0]
    return out, ins


def cls_of(name):
    from oidcmsg import oauth2, oidc
    m, c = name.split('.')
    return getattr(oauth2 if m == 'oauth2' else oidc, c)


def shards(tier):
    res = [('merge', t, w) for t in TYPES for w in WAYS]
    res += [('verify', t, w) for t in TYPES[1:] for w in WAYS]
    return res + [('made', a) for a in ('RS256', 'ES256', 'HS256', 'PS384', 'none')]


def expect_content(ck, what, m, want, case):
    got = {k: plain(v) for k, v in m.items()}
    return ck.expect(got == want, what, lambda: 'parameters are %r, expected %r' % (got, want), case)


def run(ck, shard):
    if shard[0] == 'merge':
        merge(ck, cls_of(shard[1]), shard[1], shard[2])
    elif shard[0] == 'verify':
        target.shim().clock(NOW + 0.5)
        try:
            verify(ck, cls_of(shard[1]), shard[1], shard[2])
        finally:
            target.shim().clock_off()
    else:
        made(ck, shard[1])


def merge(ck, cls, tname, first):
    from oidcmsg import oauth2, oidc
    names = ['client_id', 'scope', 'state', 'extra', 'nonce', 'max_age']
    obj_cls = oidc.AuthorizationRequest if tname.startswith('oidc') else oauth2.AuthorizationRequest
    for ways in itertools.product([first], *[WAYS] * (len(names) - 1)):
        out, ins = overlap(names, ways)
        treatments = [('strict', None), (None, None), ('lax', None), ('whitelist', ['scope', 'nonce']), ('whitelist', []), ('whitelist', None), ('whitelist', ['absent', 'extra'])]
        if ck.thorough or not any(ways[3:]):
            treatments += [('whitelist', [n for k, n in enumerate(names) if bits >> k & 1]) for bits in range(64)]
        for t, white in treatments:
            ck.begin((tname, out, ins, t, white))
            m, o = cls(**out), obj_cls(**ins)
            ck.pending += 3
            if t is None:
                m.merge(o)
                want = dict(ins)
            else:
                m.merge(o, t, white) if white is not None else m.merge(o, t)
                want = dict(ins) if t == 'strict' else {k: v for k, v in out.items() if t == 'lax' or k in (white or [])}
                want.update(ins)
            ck.case((tname, ways, t, repr(white)), 'merged %s, %d left' % (t, len(want)))
            expect_content(ck, 'merge %s' % t, m, want, ck.current)
            expect_content(ck, 'merge changes the object', o, ins, ck.current)


def protections(body):
    """name -> (valid, token); valid None: not signed, up to the receiver"""
    good = sign(body, 'rsa_rp', 'RS256')
    h, b, s = good.split('.')
    flip = s[:9] + ('A' if s[9] != 'A' else 'B') + s[10:]
    return {'RS256': (True, good), 'ES256': (True, sign(body, 'ec_rp', 'ES256')), 'HS256': (True, sign(body, 'oct_rp', 'HS256')),
            'none': (None, unsigned(body)), 'foreign': (False, sign(body, 'rsa_evil', 'RS256')), 'foreign mac': (False, sign(body, 'oct_evil', 'HS256')),
            'swapped body': (False, '.'.join((h, b64(dict(body, state='evil')), s))), 'no signature': (False, h + '.' + b + '.'),
            'flipped': (False, '.'.join((h, b, flip))), 'encrypted': (True, encrypt(good, 'rsa_rp_enc', 'RSA-OAEP', cty='JWT')),
            'encrypted foreign': (False, encrypt(sign(body, 'rsa_evil', 'RS256'), 'rsa_rp_enc', 'RSA-OAEP', cty='JWT')),
            'unknown issuer': (False, sign(dict(body, iss='https://nobody'), 'rsa_rp', 'RS256')), 'garbage': (False, 'a.b.c')}


def verify(ck, cls, tname, first):
    kj = keyjar(**{'a': ['rsa_rp', 'ec_rp', 'oct_rp'], 'e': ['rsa_evil', 'oct_evil'], 'own': ['rsa_rp_enc']})
    names = ['state', 'extra', 'scope', 'nonce']
    related = ('client_id_hint', 'stat', 'redirect_uri2', 'State', 'x_scope')
    fixed_out = {'client_id': 'a', 'response_type': ['code'], 'scope': ['openid'], 'redirect_uri': 'https://rp/1'}
    fixed_in = {'client_id': 'a', 'response_type': ['code'], 'scope': ['openid'], 'redirect_uri': 'https://rp/1', 'iss': 'a'}
    pushed, secured = 'Pushed' in tname, 'JWTSecured' in tname
    slot = '__verified_request'
    n = 0
    for ways in itertools.product([first], *[WAYS] * (len(names) - 1)):
        out, ins = overlap(names, ways)
        for k, (o, i) in FALSY.items():        # nothing is said with many words
            if (sum(ways) + len(k)) % 2:
                ins[k] = i
                if ways[2] % 2 and (o is not None or ways[3] % 2):
                    out[k] = o
        out = dict({k: v for k, v in fixed_out.items() if k != 'scope'}, **out)
        ins = dict({k: v for k, v in fixed_in.items() if k != 'scope'}, **ins)
        if ways[0] == 4:
            ins['redirect_uri'] = 'https://rp/2'
        if ways[1] == 2:
            ins['redirect_uri_extra'] = 'x'
            if pushed or secured:
                ins.pop('redirect_uri')
        if sum(ways) % 3 != 1:           # names that begin or end like others, outside and inside
            for k, w in zip(related, (1, 1, 1, 4, 1) if sum(ways) % 3 else (1, 2, 4, 1, 1)):
                o, i = overlap([k], [w])
                out.update(o)
                ins.update(i)
        body = dict(ins)
        for k in ('scope', 'response_type'):
            if k in body and ways[3] % 2:
                body[k] = ' '.join(body[k])
        for prot, (valid, tok) in protections(body).items():
            hows = ('object', 'dict', 'json', 'form') if ck.thorough else [('object', 'dict', 'json', 'form')[n % 4]]
            if prot == 'RS256' and tname.endswith('AuthorizationRequest'):
                hows = ('object', 'form')
            for how in hows:
                n += 1
                if how == 'form' and isinstance(out.get('extra'), dict) or how == 'form' and 'scope' not in out and tname.startswith('oidc'):
                    how = 'json'      # a form can not be sent without the required scope
                ck.begin((tname, how, prot, out, ins))
                m = transport(cls, dict(out, request=tok), how)
                before = {k: plain(v) for k, v in m.items()}
                v = verdict(m, keyjar=kj)
                want = dict(before, **ins) if pushed else dict(ins)
                ok = v is True
                ck.case((tname, how, prot, ways), ('accepted ' if ok else 'refused ') + str(valid))
                if valid is False:
                    ck.expect(not ok, '%s: invalid request object accepted (%s)' % (tname, prot), 'accepted')
                    got = {k: plain(x) for k, x in m.items()}
                    ck.expect(got == before, '%s: refused request object changes the request' % tname, lambda: '%r became %r' % (before, got))
                    continue
                complete = 'scope' in want or not tname.startswith('oidc')
                if tname.startswith('oidc') and 'scope' not in out:
                    complete = None       # required outside too
                if valid is True and complete:
                    ck.expect(ok, '%s: refused with a good request object' % tname, 'verdict %s' % v)
                if not ok:
                    continue
                if slot in m:
                    got = plain(m[slot])
                    for k in ('scope', 'response_type'):
                        if isinstance(got.get(k), str):
                            got[k] = got[k].split(' ')
                    ck.expect(got == ins, '%s: verified object' % tname, lambda: '%s is %r, expected %r' % (slot, got, ins))
                else:
                    ck.fail('%s: no verified object' % tname, 'verified but %s is missing' % slot)
                got = {k: plain(x) for k, x in m.items() if k != slot}
                ck.expect(got == want, '%s: effective parameters' % tname, lambda: 'parameters are %r, expected %r' % (got, want))
    if first == 1:
        declared(ck, cls, tname, kj, fixed_out, fixed_in, pushed, secured, slot)
    # without an object a request stays as it is
    out = dict(fixed_out, state='s', extra='e')
    if secured:
        out['request_uri'] = 'https://rp/ro'
    m = cls(**out)
    v = verdict(m, keyjar=kj)
    ck.case((tname, 'no object'), str(v))
    ck.expect(v is True, '%s: without an object' % tname, 'verdict %s' % v)
    expect_content(ck, '%s: without an object' % tname, m, out, 'no request object')


def declared(ck, cls, tname, kj, fixed_out, fixed_in, pushed, secured, slot):
    """each parameter the type declares: only outside, only inside, different in both"""
    from mc import alpha
    skip = set(fixed_out) | {'request', 'request_uri', 'iss', 'aud', 'exp', 'iat', 'nbf', 'claims', 'prompt', 'id_token_hint', '*'}
    names = [p for p in cls.c_param if p not in skip] + ['x_undeclared', 'login', 'hint', 'display_x']
    for p in names:
        vs = [x for x in (alpha.values(tname, cls, p) if p in cls.c_param else ['u', 'w']) if x is not None and x != '' and x != ['']]
        if p == 'display':
            vs = ['page', 'popup']
        if not vs:
            continue
        for w in (1, 2, 4, 3):
            for q in (None, 'login_hint', 'state'):
                if q == p:
                    continue
                out, ins = dict(fixed_out), dict(fixed_in)
                if w != 2:
                    out[p] = vs[0]
                if w != 1:
                    ins[p] = vs[-1] if w == 4 else vs[0]
                if q:
                    out[q] = 'outside'
                    if w == 4:
                        ins['y'] = 'inside'
                if secured:
                    ins.pop('redirect_uri')
                for prot in ('RS256', 'none', 'ES256'):
                    tok = unsigned(ins) if prot == 'none' else sign(ins, 'rsa_rp' if prot == 'RS256' else 'ec_rp', prot)
                    for how in ('object', 'json'):
                        ck.begin((tname, 'declared', how, prot, out, ins))
                        m = transport(cls, dict(out, request=tok), how)
                        before = {k: plain(v) for k, v in m.items()}
                        v = verdict(m, keyjar=kj)
                        ok = v is True
                        ck.case((tname, 'declared', how, prot, w, p, q), 'accepted' if ok else 'refused')
                        if prot != 'none':
                            ck.expect(ok, '%s: refused with a good request object' % tname, 'verdict %s' % v)
                        if ok:
                            want = dict(before, **ins) if pushed else dict(ins)
                            got = {k: plain(x) for k, x in m.items() if k != slot}
                            ck.expect(got == want, '%s: effective parameters' % tname, lambda: 'parameters are %r, expected %r' % (got, want))


def made(ck, alg):
    """what the sender builds is what the receiver gets"""
    from oidcmsg import oidc
    mine = keyjar(**{'own': ['rsa_rp', 'ec_rp', 'oct_rp']})
    # the sender's own keys are filed under its name too
    from cryptojwt.key_bundle import KeyBundle
    kb = KeyBundle()
    for k in ('rsa_rp', 'ec_rp', 'oct_rp'):
        kb.append(key(k))
    mine.add_kb('a', kb)
    kj = keyjar(**{'a': ['rsa_rp', 'ec_rp', 'oct_rp']})
    for bits in range(16):
        req = {'client_id': 'a', 'response_type': ['code'], 'scope': ['openid'], 'redirect_uri': 'https://rp/1'}
        for k, n in enumerate(('state', 'nonce', 'extra', 'claims_locales')):
            if bits >> k & 1:
                req[n] = VALUES[n][1]
        for jti in (False, True):
            for lifetime in (0, 600):
                for outside in ({}, {'state': 'other', 'x': 'y'}):
                    ck.begin((alg, req, jti, lifetime, outside))
                    arq = oidc.AuthorizationRequest(**req)
                    tok = oidc.make_openid_request(arq, mine, 'a', alg, 'https://op.example', with_jti=jti, lifetime=lifetime)
                    m = oidc.AuthorizationRequest(request=tok, **dict({k: req[k] for k in ('client_id', 'response_type', 'scope', 'redirect_uri')}, **outside))
                    v = verdict(m, keyjar=kj)
                    ck.pending += 2
                    ck.case((alg, bits, jti, lifetime, len(outside)), str(v)[:20])
                    got = {k: plain(x) for k, x in m.items() if k not in ('__verified_request', 'iat', 'iss', 'aud', 'jti', 'exp')}
                    if alg == 'none' and v is not True:
                        continue
                    ck.expect(v is True, 'made request refused', 'verdict %s' % v)
                    ck.expect(got == req, 'made request content', lambda: 'receiver has %r, sender sent %r' % (got, req))
                    if jti:
                        ck.expect(bool(m.get('jti')), 'made request without jti', repr(m))
                    if lifetime:
                        ck.expect(m.get('exp') == m.get('iat') + lifetime, 'made request lifetime', repr(m))
                    ck.expect(m.get('iss') == 'a' and m.get('aud') in (['https://op.example'], 'https://op.example'), 'made request issuer or audience', repr(m))
