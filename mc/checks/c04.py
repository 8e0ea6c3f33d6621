"""An attacker's closure over signed tokens: every signer x algorithm x key id x named issuer x receiver key jar x receiver
options; every character of a token replaced, removed or truncated, every part swapped with a part of every other token;
public keys as MAC secrets; header injections; the same inside encryption. Content may appear only where the reference
(who really signed what) allows it, and has to where it demands it."""
import itertools
import json

from mc.kit import b64, encrypt, key, keyjar, raw_keys, raw_sign, sign

TECHNIQUE = 'bounded exhaustive enumeration of attacker-built tokens against a reference of who signed what'
LEVEL = 'model_checking'
BOUNDS = {'quick': '17 keys x up to 6 algorithms x 6 key ids x 4 issuers x 6 key jars x 7 options; every token position x 2 replacements; 5 encryption algorithms',
          'thorough': 'every token position x all 63 replacements'}
FLOOR = {'quick': 30000, 'thorough': 200000}

OP, EVIL = 'https://op.example', 'https://evil.example'
JARS = {
    'full': {'own': ['rsa_rp', 'ec_rp', 'oct_rp', 'rsa_rp_enc'], OP: ['rsa_op', 'rsa_op2', 'ec_op', 'ec384_op', 'ec521_op', 'oct_op'],
             EVIL: ['rsa_evil', 'ec_evil', 'oct_evil']},
    'one': {'own': ['rsa_rp', 'oct_rp'], OP: ['rsa_op']},
    'one each': {'own': ['ec_rp'], OP: ['rsa_op', 'ec_op', 'oct_op']},
    'no kid': {'own': ['rsa_rp'], OP: ['rsa_op_nokid', 'ec_op_nokid', 'oct_op_nokid'], EVIL: ['rsa_evil']},
    'evil only': {'own': ['oct_rp', 'rsa_rp'], EVIL: ['rsa_evil', 'ec_evil', 'oct_evil']},
    'own only': {'own': ['rsa_rp', 'ec_rp', 'oct_rp']},
}
ALGS = {'RSA': ['RS256', 'RS384', 'RS512', 'PS256', 'PS384', 'PS512'], 'oct': ['HS256', 'HS384', 'HS512'],
        'ec_op': ['ES256'], 'ec_evil': ['ES256'], 'ec_rp': ['ES256'], 'ec_op_nokid': ['ES256'], 'ec384_op': ['ES384'], 'ec521_op': ['ES512']}
OPTIONS = [{}, {'verify': True}, {'allow_missing_kid': True}, {'no_kid_issuer': {OP: []}}, {'no_kid_issuer': {OP: ['rsa_op']}}, {'issuer': OP}, {'issuer': EVIL, 'trusting': False}]
CLAIMS = {'sub': 'me', 'aud': ['client'], 'exp': 1600003600, 'iat': 1600000000, 'x': {'y': ['\xe9', None, 1.5]}}
_jars = {}


def jar(name):
    if name not in _jars:
        _jars[name] = keyjar(**JARS[name])
    return _jars[name]


def algs(k):
    return ALGS.get(k) or ALGS[raw_keys()[k]['kty']]


def signers():
    return [k for k in raw_keys() if raw_keys()[k].get('use') == 'sig']


def shards(tier):
    res = [('keys', k) for k in signers()]
    res += [('tamper', k, a) for k, a in (('rsa_op', 'RS256'), ('ec_op', 'ES256'), ('oct_op', 'HS256'), ('rsa_op', 'PS256'), ('ec521_op', 'ES512'))]
    res += [('swap',), ('mac',), ('header',), ('trip', 0), ('trip', 1), ('trip', 2)]
    res += [('enc', a, k) for a, k in ENC]
    return res


ENC = [('RSA-OAEP', 'rsa_rp_enc'), ('RSA-OAEP-256', 'rsa_rp_enc'), ('RSA1_5', 'rsa_rp_enc'), ('A128KW', 'oct_rp_enc'), ('ECDH-ES+A128KW', 'ec_rp_enc')]


def kinds():
    from oidcmsg.message import Message
    from oidcmsg.oidc import IdToken, JsonWebToken
    from oidcmsg.oidc.session import LogoutToken
    return [Message, JsonWebToken, IdToken, LogoutToken]


def parse(cls, tok, kj, **kw):
    """content as a dictionary, or the error"""
    m = cls()
    try:
        r = m.from_jwt(tok, kj, **kw)
    except Exception as e:
        return None, e
    return r, None


def judge(ck, tok, payload, header, may, must, what, jname, kw, cls=None, kj=None):
    for c in ([cls] if cls else kinds()[:1]):
        r, e = parse(c, tok, kj if kj is not None else jar(jname), **kw)
        ck.case((tok, jname, repr(kw), c.__name__), 'content' if r is not None else 'error')
        if r is None:
            ck.expect(not must, 'refused ' + what, 'authentic token refused: %r' % e, (jname, kw, header, payload, tok))
            continue
        if not ck.expect(may, 'accepted ' + what, 'accepted %r with header %r' % (r.to_dict(), r.jws_header), (jname, kw, header, payload, tok)):
            continue
        want = c(**payload)
        ck.expect(r == want and json.dumps(r.to_dict(), sort_keys=True) == json.dumps(want.to_dict(), sort_keys=True), 'content ' + what,
                  'signed %r, received %r' % (payload, r.to_dict()), (jname, kw, tok))
        ck.expect(r.jws_header == header, 'header ' + what, 'header %r exposed as %r' % (header, r.jws_header), (jname, kw, tok))
        ck.expect(r.jwt == tok, 'jwt ' + what, 'the token is exposed as %r' % r.jwt)


def material(k):
    d = raw_keys()[k]
    return d.get('n') or d.get('x') or d.get('k')


def among(signer, kid, names):
    """the signing key is one of these and the key id does not rule it out"""
    return any(material(n) == material(signer) and (not kid or raw_keys()[n].get('kid') == kid) for n in names)


def holds(jname, iss, signer, alg, kw, kid):
    J = JARS[jname]
    who = iss or kw.get('issuer')
    if not who:
        return among(signer, kid, J['own'])
    if who not in J:
        return False
    return among(signer, kid, J[who]) or (alg.startswith('HS') and among(signer, kid, J['own']))


def run(ck, shard):
    if shard[0] == 'keys':
        return key_choice(ck, shard[1])
    return globals()[shard[0]](ck, *shard[1:])


def key_choice(ck, signer):
    own = raw_keys()[signer].get('kid')
    kids = [('own', own), ('absent', None), ('other', 'rsa_op'), ('other', 'ec_evil'), ('unknown', 'zzz'), ('empty', '')]
    for alg in algs(signer):
        for (kn, kid), iss in itertools.product(kids, [OP, EVIL, 'https://nobody.example', None]):
            if kn == 'own' and not kid or kn == 'other' and kid == own:
                continue
            payload = dict(CLAIMS)
            if iss:
                payload['iss'] = iss
            header = {'alg': alg}
            if kid is not None:
                header['kid'] = kid
            tok = raw_sign(header, payload, signer, alg)
            for jname in JARS:
                for kw in OPTIONS:
                    ck.begin((header, payload, jname, kw))
                    may = holds(jname, iss, signer, alg, kw, kid)
                    must = may and iss is not None and kn == 'own' and signer in JARS[jname].get(iss, ())
                    judge(ck, tok, payload, header, may, must, 'signer', jname, kw)
                # a demanded algorithm
                for want in ('RS256', 'ES256', 'HS256', alg):
                    ck.begin((header, payload, jname, want))
                    ok = holds(jname, iss, signer, alg, {}, kid) and want == alg
                    judge(ck, tok, payload, header, ok, ok and iss is not None and kn == 'own' and signer in JARS[jname].get(iss, ()),
                          'demanded algorithm', jname, {'sigalg': want})
            for kj in (None, keyjar()):
                r, e = parse(kinds()[0], tok, kj)
                ck.case((tok, 'no jar', kj is None), 'content' if r is not None else 'error')
                ck.expect(r is None, 'accepted without keys', 'no keys, but content %r' % r)
    # every type of message
    payload = dict(CLAIMS, iss=OP, jti='j', events={'http://schemas.openid.net/event/backchannel-logout': {}})
    for cls in kinds():
        for alg in algs(signer):
            header = {'alg': alg, 'kid': own} if own else {'alg': alg}
            tok = raw_sign(header, payload, signer, alg)
            for jname in JARS:
                ok = holds(jname, OP, signer, alg, {}, own)
                judge(ck, tok, payload, header, ok, ok and bool(own) and signer in JARS[jname].get(OP, ()), 'type', jname, {}, cls)


ABC = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def decoded(seg):
    import base64
    try:
        return base64.urlsafe_b64decode(seg + '=' * (-len(seg) % 4))
    except Exception:
        return None


def tamper(ck, signer, alg):
    payload = {'iss': OP, 'sub': 'me'}
    header = {'alg': alg, 'kid': signer}
    tok = raw_sign(header, payload, signer, alg)
    head, body, sig = tok.split('.')
    signed, bits = head + '.' + body, decoded(sig)
    judge(ck, tok, payload, header, True, True, 'untouched', 'full', {})
    alt = (1, 32) if not ck.thorough else range(1, 64)

    def variants():
        for i, c in enumerate(tok):
            if c == '.':
                for x in ('', '..', 'A', ' '):
                    yield tok[:i] + x + tok[i + 1:]
                continue
            for a in alt:
                yield tok[:i] + ABC[ABC.index(c) ^ a] + tok[i + 1:]
            yield tok[:i] + tok[i + 1:]
            yield tok[:i] + 'A' + tok[i:]
            yield tok[:i]
            yield tok[i + 1:]
        for x in ('.', 'A', 'AA', 'AAAA', '.A', '.' + sig):
            yield tok + x
            yield x + tok
        for s in ('', 'A', 'AA', 'AAAA', sig[::-1], sig + sig, 'A' * len(sig)):
            yield signed + '.' + s
        for p in ({}, {'iss': OP}, {'iss': OP, 'sub': 'you'}, {'iss': OP, 'sub': 'me', 'admin': True}):
            for h in (header, {'alg': alg}, dict(header, typ='JWT')):
                yield b64(h) + '.' + b64(p) + '.' + sig
    for t in dict.fromkeys(variants()):
        if t == tok:
            continue
        parts = t.split('.')
        same = len(parts) == 3 and parts[0] + '.' + parts[1] == signed and decoded(parts[2]) == bits
        if same:        # another spelling of the very same signature
            continue
        ck.begin(t)
        r, e = parse(kinds()[0], t, jar('full'))
        ck.case((t, 'tampered'), 'content' if r is not None else 'error')
        ck.expect(r is None, 'accepted tampered', 'altered token accepted: %r' % (r and r.to_dict()))


def swap(ck):
    """parts of authentic tokens recombined"""
    toks = []
    for signer in signers():
        for alg in algs(signer)[:2]:
            kid = raw_keys()[signer].get('kid')
            for iss in (OP, EVIL):
                for sub in ('me', 'you'):
                    h = {'alg': alg, 'kid': kid} if kid else {'alg': alg}
                    p = {'iss': iss, 'sub': sub}
                    toks.append((raw_sign(h, p, signer, alg).split('.'), signer, alg, h, p))
    for (a, s1, a1, h1, p1), (b, s2, a2, h2, p2), (c, s3, a3, h3, p3) in itertools.chain(
            ((x, y, y) for x in toks for y in toks), ((x, x, y) for x in toks for y in toks), ((x, y, x) for x in toks for y in toks)):
        if a[0] + '.' + b[1] == c[0] + '.' + c[1]:
            continue        # that is what was signed
        t = a[0] + '.' + b[1] + '.' + c[2]
        ck.begin((h1, p2, s3))
        r, e = parse(kinds()[0], t, jar('full'))
        ck.case((t, 'swap'), 'content' if r is not None else 'error')
        ck.expect(r is None, 'accepted recombined', 'recombined token accepted: %r' % (r and r.to_dict()))


def mac(ck):
    """something public used as a MAC secret"""
    import hashlib
    import hmac
    from cryptography.hazmat.primitives import serialization as ser
    E, F = ser.Encoding, ser.PublicFormat
    for k in ('rsa_op', 'rsa_op2', 'ec_op', 'ec384_op', 'rsa_rp', 'ec_rp', 'oct_op', 'oct_rp'):
        jwk = raw_keys()[k]
        secrets = [b'', b'\0' * 32, k.encode(), OP.encode(), b'none', b'secret']
        if jwk['kty'] != 'oct':
            pub = key(k).public_key()
            for e, f in ((E.PEM, F.SubjectPublicKeyInfo), (E.DER, F.SubjectPublicKeyInfo)) + (((E.PEM, F.PKCS1), (E.DER, F.PKCS1)) if jwk['kty'] == 'RSA' else
                                                                                             ((E.X962, F.UncompressedPoint), (E.X962, F.CompressedPoint))):
                s = pub.public_bytes(e, f)
                secrets += [s, s.strip(), s + b'\n']
            pubjwk = {n: jwk[n] for n in ('kty', 'kid', 'use', 'n', 'e', 'crv', 'x', 'y') if n in jwk}
            secrets += [json.dumps(pubjwk).encode(), json.dumps(pubjwk, sort_keys=True, separators=(',', ':')).encode()]
            for n in ('n', 'x', 'y', 'e'):
                if n in jwk:
                    secrets += [jwk[n].encode(), decoded(jwk[n])]
        for alg, h in (('HS256', hashlib.sha256), ('HS384', hashlib.sha384), ('HS512', hashlib.sha512)):
            for kid in (k, None, 'oct_op', 'zzz'):
                for iss in (OP, EVIL, None, 'https://nobody.example'):
                    header = {'alg': alg}
                    if kid:
                        header['kid'] = kid
                    payload = {'iss': iss, 'sub': 'me'} if iss else {'sub': 'me'}
                    signed = b64(header) + '.' + b64(payload)
                    for s in secrets:
                        t = signed + '.' + b64(hmac.new(s, signed.encode(), h).digest())
                        for jname in ('full', 'one', 'one each', 'no kid'):
                            for kw in ({}, {'allow_missing_kid': True}):
                                ck.begin((header, payload, s, jname, kw))
                                r, e = parse(kinds()[0], t, jar(jname), **kw)
                                ck.case((t, jname, repr(kw)), 'content' if r is not None else 'error')
                                ck.expect(r is None, 'accepted public MAC secret', 'accepted %r' % (r and r.to_dict()))


def header(ck):
    """headers carrying keys or odd algorithm names, around signatures of the attacker"""
    for signer, alg in (('rsa_evil', 'RS256'), ('ec_evil', 'ES256'), ('oct_evil', 'HS256')):
        jwk = raw_keys()[signer]
        pub = {n: v for n, v in jwk.items() if n in ('kty', 'kid', 'use', 'n', 'e', 'crv', 'x', 'y', 'k')}
        extras = [{}, {'jwk': pub}, {'jwk': dict(pub, kid='rsa_op')}, {'jku': 'https://127.0.0.1:1/jwks'}, {'x5c': ['AAAA']}, {'x5t': 'AAAA'}, {'crit': ['x'], 'x': 1},
                  {'jwk': pub, 'jku': EVIL, 'x5u': EVIL}, {'iss': EVIL}, {'typ': 'JWT', 'cty': 'JWT'}, {'keys': [pub]}]
        for extra in extras:
            for kid in (jwk.get('kid'), 'rsa_op', 'ec_op', 'oct_op', None):
                for iss in (OP, 'https://nobody.example', EVIL, None):
                    payload = {'sub': 'me', 'jwks': {'keys': [pub]}, 'sub_jwk': pub}
                    if iss:
                        payload['iss'] = iss
                    h = dict(extra, alg=alg)
                    if kid:
                        h['kid'] = kid
                    t = raw_sign(h, payload, signer, alg)
                    for jname in ('full', 'one', 'one each'):
                        for kw in ({}, {'allow_missing_kid': True}):
                            ck.begin((h, payload, jname, kw))
                            may = iss == EVIL and EVIL in JARS[jname] and kid in (None, jwk.get('kid'))
                            judge(ck, t, payload, h, may, False, 'header', jname, kw)
    # names that are no algorithms, and algorithms of another family, with all kinds of signatures
    names = ['NONE', 'None', 'nOnE', '', ' none', 'none ', 'RS', 'HS1', 'rs256', 'RS256 ', 'HS256\x00', 'ES256', 'PS256', 'HS256', 'RS256', 'HS512', 'dir', 'RSA1_5', 5, True, [], ['none'],
             ['RS256'], {}, 'MD5', 'RS1', 'ES256K', 'EdDSA']
    for name in names:
        for signer, alg in (('rsa_evil', 'RS256'), ('ec_evil', 'ES256'), ('oct_evil', 'HS256'), ('rsa_op', 'RS256'), ('ec_op', 'ES256'), ('oct_op', 'HS256'), (None, None)):
            if name == alg:
                continue
            for kid in ('rsa_op', 'ec_op', 'oct_op', None):
                h = {'alg': name}
                if kid:
                    h['kid'] = kid
                p = {'iss': OP, 'sub': 'me'}
                t = raw_sign(h, p, signer, alg) if signer else b64(h) + '.' + b64(p) + '.'
                for jname in ('full', 'one', 'own only'):
                    for kw in ({}, {'allow_missing_kid': True}):
                        ck.begin((h, p, signer, jname))
                        r, e = parse(kinds()[0], t, jar(jname), **kw)
                        ck.case((t, jname, repr(kw)), 'content' if r is not None else 'error')
                        ck.expect(r is None, 'accepted odd algorithm', 'accepted %r' % (r and r.to_dict()))


def trip(ck, part):
    """what is signed is what is received"""
    from mc import alpha
    from oidcmsg.message import Message
    cs = alpha.classes()
    names = ['message.Message', 'oidc.JsonWebToken', 'oidc.OpenIDRequest', 'oidc.AuthnToken', 'oidc.session.LogoutToken', 'oauth2.AuthorizationRequest',
             'oidc.OpenIDSchema', 'oauth2.SecurityEventToken']
    for cname in names[part::3]:
        cls = cs[cname]
        req = alpha.required(cname, cls)
        cases = []
        for p in cls.c_param:
            for v in alpha.values(cname, cls, p, not ck.thorough):
                cases.append(dict(req, **{p: v}))
        cases += [dict(req, **{k: v}) for k, v in alpha.EXTRAS]
        for n, kw in enumerate(cases):
            kw = dict(kw, iss=OP)
            for signer, alg in (('ec_op', 'ES256'), ('oct_op', 'HS256')) + ((('rsa_op', 'RS256'), ('ec384_op', 'ES384')) if n % 4 == 0 or ck.thorough else ()):
                ck.begin((cname, kw, signer))
                m = cls(**kw)
                before = alpha.plain(m)
                t = m.to_jwt([key(signer)], alg)
                b, e = parse(cls, t, jar('full'))
                ck.case((cname, repr(kw), alg), 'content' if b is not None else 'error')
                ck.expect(alpha.plain(m) == before, 'message changed', 'signing changed the message')
                if ck.expect(b is not None, 'own token refused', repr(e)):
                    ck.expect(b == m and alpha.plain(b) == before, 'signed content', lambda: 'signed %r, received %r' % (before, alpha.plain(b)))
                    ck.expect(b.jws_header.get('alg') == alg and b.jws_header.get('kid') == signer, 'signed header', repr(b.jws_header))


def enc(ck, alg, ekey):
    """signed, then encrypted"""
    from cryptojwt.jwe.jwe import JWE
    from cryptojwt.jwk.ec import ECKey, new_ec_key
    from cryptojwt.jwk.hmac import SYMKey
    from cryptojwt.jwk.rsa import new_rsa_key
    if alg.startswith('RSA'):
        mine, other = key('rsa_rp_enc'), key('rsa_other_enc')
    elif alg == 'A128KW':
        mine, other = SYMKey(key=b'0123456789abcdef', use='enc', kid='oct_rp_enc'), SYMKey(key=b'fedcba9876543210', use='enc', kid='oct_other_enc')
    else:
        mine, other = new_ec_key('P-256', use='enc', kid='ec_rp_enc'), new_ec_key('P-256', use='enc', kid='ec_other_enc')
    from cryptojwt.key_bundle import KeyBundle
    from oidcmsg.message import Message

    def with_keys(*ks):
        kj = keyjar(**{k: v for k, v in JARS['full'].items() if k != 'own'})
        kb = KeyBundle()
        for k in ks:
            kb.append(k)
        kj.add_kb('', kb)
        return kj
    me, them, both, nobody = with_keys(mine, key('oct_rp')), with_keys(other), with_keys(other, mine), with_keys(key('oct_rp'), key('rsa_rp'))

    def wrap(text, k, cenc='A128CBC-HS256'):
        return JWE(text, alg=alg, enc=cenc, cty='JWT', kid=k.kid).encrypt([k])
    for signer in signers():
        for salg in algs(signer)[:1]:
            kid = raw_keys()[signer].get('kid')
            for iss in (OP, EVIL, 'https://nobody.example'):
                for hkid in {kid, 'rsa_op', None}:
                    header = {'alg': salg}
                    if hkid:
                        header['kid'] = hkid
                    payload = dict(CLAIMS, iss=iss)
                    inner = raw_sign(header, payload, signer, salg)
                    for cenc in ('A128CBC-HS256', 'A256GCM'):
                        for k in (mine, other):
                            t = wrap(inner, k, cenc)
                            for name, kj in (('me', me), ('them', them), ('both', both), ('nobody', nobody)):
                                readable = name == 'both' or (name == 'me' and k is mine) or (name == 'them' and k is other)
                                ok = iss in JARS['full'] and (among(signer, hkid, JARS['full'][iss]) or (name in ('me', 'nobody') and among(signer, hkid, ['oct_rp'])))
                                ck.begin((alg, cenc, header, payload, name, k.kid))
                                r, e = parse(Message, t, kj)
                                ck.case((alg, cenc, repr(header), repr(payload), name, k.kid), 'content' if r is not None else 'error')
                                if r is None:
                                    ck.expect(not (readable and ok and hkid == kid and kid and signer in JARS['full'][iss]), 'refused encrypted', repr(e))
                                elif ck.expect(readable and ok, 'accepted encrypted', 'accepted %r' % r.to_dict()):
                                    ck.expect(r.to_dict() == payload and r.jws_header == header, 'encrypted content', '%r %r' % (r.to_dict(), r.jws_header))
                                    ck.expect(r.jwe_header is not None and r.jwe_header.get('alg') == alg and r.jwe_header.get('enc') == cenc, 'encryption header', repr(r.jwe_header))
    # altered encrypted tokens, and messages encrypted without a signature
    payload = {'iss': OP, 'sub': 'me'}
    inner = raw_sign({'alg': 'ES256', 'kid': 'ec_op'}, payload, 'ec_op', 'ES256')
    tok = wrap(inner, mine)
    plain = Message(**payload).to_jwe([mine], enc='A128CBC-HS256', alg=alg)
    ends = set(itertools.accumulate(len(s) + 1 for s in tok.split('.')))
    for what, text in (('signed', tok), ('plain', plain)):
        r, e = parse(Message, text, me) if what == 'signed' else load(Message, text, [mine])
        ck.case((alg, what, 'read'), 'content' if r is not None else 'error')
        ck.expect(r is not None and r.to_dict() == payload, 'own encrypted token', '%r %r' % (r and r.to_dict(), e))
        if what == 'plain':
            for ks in ([other], [], [key('oct_rp')], [key('rsa_rp')]):
                r, e = load(Message, text, ks)
                ck.case((alg, 'plain', str([k.kid for k in ks])), 'content' if r is not None else 'error')
                ck.expect(r is None, 'readable by others', 'read %r with %r' % (r and r.to_dict(), ks))
        segs = text.split('.')
        for i, c in enumerate(text):
            if c == '.':
                continue
            last = i + 1 == len(text) or text[i + 1] == '.'
            for a in ((1, 32) if not ck.thorough else (1, 2, 4, 8, 16, 32)):
                t = text[:i] + ABC[ABC.index(c) ^ a] + text[i + 1:]
                if last and [decoded(s) for s in t.split('.')] == [decoded(s) for s in segs] and t.split('.')[0] == segs[0]:
                    continue
                ck.begin((alg, what, i, a))
                r, e = parse(Message, t, me) if what == 'signed' else load(Message, t, [mine])
                ck.case((alg, what, i, a), 'content' if r is not None else 'error')
                ck.expect(r is None, 'accepted altered encrypted', 'altered at %d: %r' % (i, r and r.to_dict()), t)


def load(cls, text, keys):
    try:
        return cls().from_jwe(text, keys), None
    except Exception as e:
        return None, e
