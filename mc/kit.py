"""Small helpers shared by the checks of verify() rules."""
import itertools
import json
import os

from . import core

HERE = os.path.dirname(os.path.abspath(__file__))
NOW = 1600000000


def verdict(m, **kw):
    """True: accepted. Otherwise what happened (a falsy answer or an exception)"""
    core.note_op()
    try:
        r = m.verify(**kw)
    except Exception as e:
        return '%s(%s)' % (type(e).__name__, str(e)[:200])
    return True if r else 'answer %r' % (r,)


def product(table):
    """table: name -> list of values; ABSENT leaves the name out. Yields dictionaries."""
    names = list(table)
    for combo in itertools.product(*[table[n] for n in names]):
        yield {n: v for n, v in zip(names, combo) if v is not ABSENT}


class _Absent:
    def __repr__(self):
        return 'ABSENT'


ABSENT = _Absent()

TRANSPORTS = ('object', 'dict', 'json', 'form')


def transport(cls, kw, how):
    core.note_op()
    m = cls(**kw)
    if how == 'object':
        return m
    if how == 'dict':
        return cls().from_dict(m.to_dict())
    if how == 'json':
        return cls().from_json(m.to_json())
    m.lax = True
    return cls().from_urlencoded(m.to_urlencoded())


_keys = None


def raw_keys():
    global _keys
    if _keys is None:
        with open(os.path.join(HERE, 'keys.json')) as fp:
            _keys = json.load(fp)
    return _keys


def key(name):
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    return key_from_jwk_dict(dict(raw_keys()[name]))


def keyjar(**owners):
    """keyjar(owner=[key names]) with '' spelled `own`; public halves for all but `own`"""
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    from cryptojwt.key_bundle import KeyBundle
    from cryptojwt.key_jar import KeyJar
    kj = KeyJar()
    for owner, names in owners.items():
        who = '' if owner == 'own' else OWNERS.get(owner, owner)
        kb = KeyBundle()
        for n in names:
            d = dict(raw_keys()[n])
            if who and d['kty'] != 'oct':
                d = {k: v for k, v in d.items() if k in ('kty', 'kid', 'use', 'n', 'e', 'crv', 'x', 'y', 'alg')}
            kb.append(key_from_jwk_dict(d))
        kj.add_kb(who, kb)
    return kj


OWNERS = {}


def sign(payload, keyname, alg, **headers):
    from cryptojwt.jws.jws import JWS
    ks = [key(keyname)] if keyname else []
    return JWS(json.dumps(payload), alg=alg, **headers).sign_compact(ks)


def unsigned(payload):
    from cryptojwt.jws.jws import JWS
    return JWS(json.dumps(payload), alg='none').sign_compact([])


def token(header, payload, sig=b''):
    """a compact JWS from raw parts"""
    from cryptojwt.utils import b64e
    j = lambda o: o if isinstance(o, bytes) else json.dumps(o).encode()
    return '.'.join(b64e(p).decode() for p in (j(header), j(payload), sig))


def encrypt(text, keyname, alg, enc='A128CBC-HS256', **kw):
    from cryptojwt.jwe.jwe import JWE
    return JWE(text, alg=alg, enc=enc, **kw).encrypt([key(keyname)])


def b64(o):
    from cryptojwt.utils import b64e
    return b64e(o if isinstance(o, bytes) else json.dumps(o).encode()).decode()


def raw_sign(header, payload, keyname, alg):
    """a compact JWS with exactly this header, signed with this key the way `alg` says"""
    from cryptojwt.jws.jws import SIGNER_ALGS
    k = key(keyname)
    text = b64(header) + '.' + b64(payload)
    secret = k.key if k.kty == 'oct' else k.private_key()
    return text + '.' + b64(SIGNER_ALGS[alg].sign(text.encode(), secret))


def near(s):
    """texts that are almost s"""
    import unicodedata
    res = [s + ' ', ' ' + s, s + '/', s[:-1], s[1:], s.upper(), s.lower(), s.title(), s.swapcase(), s + s, s + ',x', 'x,' + s, s + ' x', s + '\n', s + '\0', s + '#', s + '?',
           s + '#x', s + '?x=1', '"%s"' % s, '[%s]' % s, s + '.', '.' + s, s + '%20', s.replace('/', '%2F'), s.replace('https', 'http'), s.replace('://', ':///'), s[::-1],
           s + ':443', s + ':80', s + 'é', s + 'e\u0301', s + '\u200b', '\ufeff' + s, unicodedata.normalize('NFKD', s), s + '*', '*', s[:1] + '*', '.' * len(s), s + '|x', s + '=', s + ';']
    return [x for x in dict.fromkeys(res) if x != s]


def lists_of(s, sizes=(2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257)):
    """(s among them, others): s nowhere, first, in the middle, last but one, last; and one list with s twice"""
    others = ['https://rp%d.example.com/' % i for i in range(max(sizes))]
    for n in sizes:
        yield False, others[:n]
        for at in sorted({0, n // 2, n - 2, n - 1}):
            yield True, others[:at] + [s] + others[at:n - 1]
    yield True, [s, s]
    yield False, near(s)
    yield True, near(s) + [s]


def half_hash(text, bits):
    """the left half of a hash, the way at_hash and c_hash are made"""
    import base64
    import hashlib
    d = hashlib.new('sha%d' % bits, text.encode()).digest()
    return base64.urlsafe_b64encode(d[:len(d) // 2]).decode().rstrip('=')
