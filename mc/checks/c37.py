"""Every message type x the contents of C01 written as a signed, an unsigned, an encrypted and a signed and encrypted token and
read again by the receiver, through the methods and through serialize/deserialize; the token is also taken apart by hand.
Sending changes nothing in the message (an ID Token gets its time of issue), reading gives an equal message."""
import base64
import json

from mc import alpha, target
from mc.checks.c01 import given, nested_types, strict, text_of
from mc.kit import NOW, key, keyjar

TECHNIQUE = 'bounded exhaustive enumeration of message contents through sign/encrypt and verify/decrypt round trips of the real code'
LEVEL = 'model_checking'
BOUNDS = {'quick': '75 types; required parameters and each other parameter x full value alphabet, all at once, 16 undeclared parameters, language tags x 4 protections (2 methods each) and tokens as other implementations write them',
          'thorough': 'all contents of C01 (pairs of parameters, sizes)'}
FLOOR = {'quick': 30000, 'thorough': 300000}
SYM = b'0123456789abcdef'


def shards(tier):
    return alpha.pieces(tier)


def contents(cname, cls, thorough):
    if thorough:
        yield from alpha.contents(cname, cls, 'quick')
        return
    req = alpha.required(cname, cls)
    yield dict(req)
    params = [p for p in cls.c_param if p != '*' and alpha.values(cname, cls, p)]
    for p in params:
        for v in alpha.values(cname, cls, p):
            yield dict(req, **{p: v})
        if alpha.kind(cls.c_param[p]) == 'str' and not alpha.is_time(cname, p):
            yield dict(req, **{p + '#ja': 'é "', p: 'a'})
    for i in range(8):
        yield dict(req, **{p: alpha.values(cname, cls, p)[i % len(alpha.values(cname, cls, p))] for p in params[i % 2::1 + i % 2]})
    for k, v in alpha.EXTRAS:
        yield dict(req, **{k: v})
    yield dict(req, **dict(alpha.EXTRAS))
    yield dict(req, **{'x%d' % i: 'v%d' % i for i in range(300)})
    for size in (1000, 5000, 20000, 70000):
        yield dict(req, x_large='é' * (size // 2) + 'z' * size)


def part(t, i):
    b = t.split('.')[i]
    return json.loads(base64.urlsafe_b64decode(b + '=' * (-len(b) % 4)))


def run(ck, shard):
    from cryptojwt.jwk.hmac import SYMKey
    cs = alpha.classes()
    mac = key('oct_op')
    ek = SYMKey(key=SYM, use='enc', kid='oct_enc')
    kj = keyjar(own=['oct_op'])
    from cryptojwt.key_bundle import KeyBundle
    kb = KeyBundle()
    kb.append(ek)
    kj.add_kb('', kb)
    target.shim().clock(NOW + 17.5)
    try:
        for cname in shard:
            cls = cs[cname]
            nested = any(alpha.kind(s) in ('msg', 'msgs') for s in cls.c_param.values())
            for n, kw in enumerate(contents(cname, cls, ck.thorough)):
                iss = kw.get('iss')
                if isinstance(iss, str) and iss not in kj:
                    kj.add_kb(iss, kb)      # a receiver that knows the issuer; the keys are its own
                for mode in ('plain', 'messages') if nested else ('plain',):
                    ck.begin((cname, mode, kw))
                    one(ck, cname, cls, kw, mode, mac, ek, kj, n)
    finally:
        target.shim().clock_off()


def one(ck, cname, cls, kw, mode, mac, ek, kj, n):
    from cryptojwt.jwe.jwe import JWE
    from cryptojwt.jws.jws import JWS
    try:
        m = cls(**(given(cname, cls, kw) if mode == 'messages' else kw))
    except Exception as e:
        ck.fail('construction', '%s(%r): %r' % (cname, kw, e))
        return
    idt = cname == 'oidc.IdToken'
    if idt:     # the time of issue is the time of signing
        m['iat'] = NOW + 17
    before, kinds = alpha.plain(m), nested_types(m)
    doc = json.loads(m.to_json())
    # what another implementation would send: JSON with its characters as they are, spread over lines
    raw = json.dumps(doc, ensure_ascii=False, indent=1 if n % 3 == 0 else None, sort_keys=n % 2 == 1)
    for how in ('jwe', 'jws'):
        try:
            if how == 'jwe':
                b = cls(set_defaults=False).from_jwe(JWE(raw.encode(), alg='A128KW', enc='A128CBC-HS256', kid=ek.kid).encrypt([ek]), [ek])
            else:
                b = cls(set_defaults=False).from_jwt(JWS(raw.encode(), alg='HS256').sign_compact([mac]), kj)
        except Exception as e:
            ck.fail('foreign %s %s' % (how, cname), repr(e))
            continue
        ck.case((cname, mode, 'foreign', how, repr(kw)), 'foreign %s' % how)
        ck.expect(b == m and alpha.plain(b) == before, 'foreign %s %s' % (how, cname), lambda: 'sent %r, received %r' % (before, alpha.plain(b)))
    for prot in ('HS256', 'none', 'jwe', 'HS256+jwe'):
        meth = (n + len(prot)) % 2
        try:
            if prot == 'jwe':
                t = m.to_jwe([ek], 'A128CBC-HS256', 'A128KW') if meth or idt else m.serialize('jwe', keys=[ek], enc='A128CBC-HS256', alg='A128KW')
            else:
                a = prot.split('+')[0]
                ks = [mac] if a != 'none' else []
                t = m.to_jwt(ks, a) if meth else m.serialize('jwt', key=ks, algorithm=a)
            ck.expect(alpha.plain(m) == before, 'message changed', lambda: 'sending changed %r to %r' % (before, alpha.plain(m)))
            if prot in ('HS256', 'none'):
                ck.expect(t.count('.') == 2 and part(t, 0)['alg'] == prot and strict(part(t, 1), doc), 'token %s' % cname, lambda: 'token holds %r, expected %r' % (part(t, 1), doc))
            if prot == 'HS256+jwe':
                t = JWE(t, alg='A128KW', enc='A128CBC-HS256', cty='JWT', kid=ek.kid).encrypt([ek])
        except Exception as e:
            ck.fail('sending %s %s' % (prot, cname), repr(e))
            continue
        try:
            b = cls(set_defaults=False)
            if prot == 'jwe':
                b = b.from_jwe(t, [ek]) if meth else b.deserialize(t, 'jwe', keys=[ek])
                # a token that is only encrypted, read by a receiver that does not know it
                c = cls(set_defaults=False).from_jwt(t, kj)
                ck.expect(c == m and alpha.plain(c) == before, 'encrypted token %s' % cname, lambda: 'sent %r, received %r' % (before, alpha.plain(c)))
                ck.expect(nested_types(c) == kinds, 'kind %s' % cname, 'nested kinds differ')
                ck.expect(c.jws_header is None and c.jwe_header is not None, 'headers', repr((c.jws_header, c.jwe_header)))
            else:
                b = b.from_jwt(t, kj) if meth else b.deserialize(t, 'jwt', keyjar=kj)
        except Exception as e:
            ck.fail('receiving %s %s' % (prot, cname), repr(e))
            continue
        ck.case((cname, mode, prot, repr(kw)), prot)
        ck.expect(b == m and alpha.plain(b) == before, 'round trip %s %s' % (prot, cname), lambda: 'sent %r, received %r' % (before, alpha.plain(b)))
        ck.expect(nested_types(b) == kinds, 'kind %s' % cname, 'nested kinds differ')
        if prot != 'jwe':
            ck.expect(b.jws_header is not None and b.jws_header.get('alg') == prot.split('+')[0], 'header', repr(b.jws_header))
            ck.expect((b.jwe_header is not None) == prot.endswith('jwe'), 'encryption header', repr(b.jwe_header))
