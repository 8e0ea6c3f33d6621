"""Every message type x (every declared parameter x every value of its alphabet, all pairs, language tags, undeclared
text parameters, everything at once) encoded as a form and parsed again; the encoding is also read with an independent
reader and compared with reference texts. Every required parameter removed; every single-valued parameter repeated."""
import json
import re
from datetime import datetime, timezone
from urllib.parse import quote_plus

from mc import alpha
from mc.checks.c01 import given, strict, text_of

TECHNIQUE = 'bounded exhaustive enumeration of message contents through form encode/parse round trips of the real code'
LEVEL = 'model_checking'
BOUNDS = {'quick': '75 types; all parameters x full value alphabet; all pairs x 2 x 2; 12 undeclared parameters; every required parameter missing; every parameter repeated in 4 ways',
          'thorough': 'pairs x 4 x 4; triples for types with at most 25 parameters'}
FLOOR = {'quick': 50000, 'thorough': 150000}

EXTRAS = [('x_text', 'plain'), ('x_odd', '&=?#%+ é"\\'), ('x_line', 'a\r\nb\tc'), ('x_num', 5), ('x_bool', True), ('x_null', None),
          ('x_list', ['p', 'q']), ('x_list2', ['a b', '&=é', 'a b']), ('x_same', ['a', 'a']), ('x_same3', ['w', 'v', 'v', 'v']),
          ('x_many', ['t%d' % (n % 40) for n in range(70)]), ('x_long', 'y=&' * 5000), ('k e=y&é', 'v'), ('x#', 'v'), ('#x', 'v'), ('x#y#z', 'v;w')]
TIMES = [('2020-01-11T11:00:00+0000', datetime(2020, 1, 11, 11, tzinfo=timezone.utc)),
         ('1999-12-31T23:59:59+0000', datetime(1999, 12, 31, 23, 59, 59, tzinfo=timezone.utc))]


def shards(tier):
    return alpha.pieces(tier)


def unquote(s):
    out = bytearray()
    i = 0
    s = s.encode('utf-8')
    while i < len(s):
        c = s[i]
        if c == 0x25:
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(0x20 if c == 0x2b else c)
            i += 1
    return out.decode('utf-8')


def pairs(form):
    """independent reader of application/x-www-form-urlencoded"""
    res = []
    for part in form.split("&"):
        if not part:
            continue
        k, _, v = part.partition('=')
        res.append((unquote(k), unquote(v)))
    return res


def expected(cname, cls, kw):
    """(parameters after parsing, list of (name, text or parsed JSON) in the form)"""
    back, form = {}, []
    for k, v in kw.items():
        base = k if k in cls.c_param else k.split('#')[0]
        s = cls.c_param.get(base)
        if v is None or v == '':
            continue
        if s is None:
            if isinstance(v, list):
                back[k] = v
                form += [(k, x) for x in v]
            else:
                back[k] = str(v)
                form.append((k, str(v)))
            continue
        kd = alpha.kind(s)
        if alpha.is_time(cname, base):
            back[k] = int(dict(TIMES)[v].timestamp())
            form.append((k, v))
        elif kd in ('str', 'int', 'bool') or alpha.is_token(cls, base) or isinstance(v, str):
            back[k] = str(v)
            form.append((k, str(v)))
        elif kd == 'list':
            back[k] = v
            form.append((k, ' '.join(v)))
        else:
            back[k] = v
            form.append((k, ('json', v)))
    return back, form


def run(ck, shard):
    cs = alpha.classes()
    for cname in shard:
        cls = cs[cname]
        cases = list(alpha.contents(cname, cls, ck.tier, extras=EXTRAS))
        nested = any(alpha.kind(s) in ('msg', 'msgs') for s in cls.c_param.values())
        for n, kw in enumerate(cases):
            kw = {k: TIMES[alpha.ISO.index(v) % 2][0] if k in cls.c_param and alpha.is_time(cname, k) else v for k, v in kw.items()}
            if any(v == [] for v in kw.values()):
                continue
            for mode in ('plain', 'messages') if nested else ('plain',):
                ck.begin((cname, mode, kw))
                trip(ck, cname, cls, kw, mode)
        refusals(ck, cname, cls)


def trip(ck, cname, cls, kw, mode):
    try:
        m = cls(**(given(cname, cls, kw) if mode == 'messages' else kw))
    except Exception as e:
        ck.fail('construction', '%s(%r): %r' % (cname, kw, e))
        return
    full = dict(cls.c_default)
    full.update(kw)
    back, form = expected(cname, cls, full)
    before = alpha.plain(m)
    try:
        u = m.to_urlencoded()
    except Exception as e:
        ck.fail('encoding %s' % cname, repr(e))
        return
    ck.expect(alpha.plain(m) == before, 'message changed', lambda: 'encoding changed %r to %r' % (before, alpha.plain(m)))
    try:
        assert u.isascii()
        got = pairs(u)
    except Exception as e:
        ck.fail('not a form', '%r: %r' % (u, e))
        return
    ok = sorted(k for k, v in got) == sorted(k for k, v in form)
    rest = list(form)
    for k, v in got:
        for x in rest:
            if x[0] == k and (x[1] == v or isinstance(x[1], tuple) and js(v) == x[1][1]):
                rest.remove(x)
                break
        else:
            ok = False
    ck.expect(ok, 'form %s' % cname, lambda: 'form %r, expected %r' % (got, form))
    # other spellings of the same form
    alike = re.sub('%[0-9A-F]{2}', lambda x: x.group().lower(), u).replace('+', '%20')
    if len({k for k, v in got}) == len(got):
        alike = '&'.join(reversed(alike.split('&')))
    for how in ('from_urlencoded', 'deserialize', 'in a list', 'other spelling'):
        try:
            b = cls()
            b = b.deserialize(u, 'urlencoded') if how == 'deserialize' else b.from_urlencoded([u] if how == 'in a list' else alike if how == 'other spelling' else u)
        except Exception as e:
            ck.fail('parsing %s' % cname, 'parsing %r: %r' % (u, e))
            continue
        t = text_of(b)
        for k in kw:
            if alpha.is_time(cname, k) and isinstance(t.get(k), float):
                t[k] = int(t[k]) if t[k] == int(t[k]) else t[k]
        same = strict(t, back)
        ck.case((cname, mode, how, u), 'same' if same else 'differs')
        ck.expect(same, 'round trip %s' % cname, lambda: 'form %r gives %r, expected %r' % (u, t, back))
        for p, s in cls.c_param.items():
            if alpha.kind(s) in ('msg', 'msgs') and p in b and not isinstance(b[p], str):
                ck.expect(alpha.plain(b[p]) == alpha.plain(m[p]), 'nested %s' % cname, lambda: 'sent %r, received %r' % (alpha.plain(m[p]), alpha.plain(b[p])))
        if how == 'other spelling':
            continue
        try:
            v = b.to_urlencoded()
        except Exception as e:
            ck.fail('second encoding %s' % cname, repr(e))
            continue
        ck.expect(v == u if u == m.to_urlencoded() else False, 'second form %s' % cname, lambda: 'first %r, second %r' % (u, v))


def js(v):
    try:
        return json.loads(v)
    except ValueError:
        return v


def refusals(ck, cname, cls):
    req = alpha.required(cname, cls)
    req = {k: (TIMES[0][0] if alpha.is_time(cname, k) else v) for k, v in req.items()}
    for text in ('foo', 'a b', '{"a": "b"}', '%', '%3D', 'scope', '\u00e9', ' ', 'eyJhbGciOiJub25lIn0.e30.'):
        ck.begin(('no form', cname, text))
        try:
            b = cls().from_urlencoded(text)
        except Exception:
            b = None
        ck.case(('no form', cname, text), 'refused' if b is None else 'parsed')
        ck.expect(b is None, 'no form', '%r parsed as %r' % (text, b and b.to_dict()))
    ck.begin(('empty form', cname))
    ck.expect(alpha.plain(cls().from_urlencoded('')) == alpha.plain(cls()), 'empty form', 'the empty form holds something')
    for p in req:
        for extra in ({}, {'x': 'y'}, {p + '#ja': 'a'} if alpha.kind(cls.c_param[p]) == 'str' else {'z': 'a'}):
            if p in cls.c_default:
                continue
            kw = {k: v for k, v in req.items() if k != p}
            kw.update(extra)
            ck.begin(('required', cname, p, extra))
            m = cls(**kw)
            try:
                u = m.to_urlencoded()
            except Exception as e:
                u = None
            ck.case(('required', cname, p, str(extra)), 'refused' if u is None else 'encoded')
            ck.expect(u is None, 'required %s' % cname, 'encoded %r without the required %s' % (u, p))
            # nothing is missing: not refused
            m = cls(**dict(kw, **{p: req[p]}))
            m.lax = False
            ck.expect(m.to_urlencoded() != '', 'refused', 'refused although nothing is missing')
    for p, s in cls.c_param.items():
        if p == '*':
            continue
        kd = alpha.kind(s)
        if kd in ('list', 'msgs'):
            continue
        vals = alpha.values(cname, cls, p)
        v = {'str': 'a', 'int': '1', 'bool': 'true', 'dict': '{}', 'msg': '{}'}.get(kd, 'a')
        if alpha.is_time(cname, p):
            v = TIMES[0][0]
        q = quote_plus(v)
        for name in (p, p + '#ja'):
            n = quote_plus(name)
            for form in ('%s=%s&%s=%s' % (n, q, n, q), '%s=%s&%s=%s' % (n, q, n, quote_plus('b c')), 'x=y&%s=%s&z=1&%s=%s' % (n, q, n, q),
                         '%s=%s&%s=%s&%s=%s' % (n, q, n, q, n, q)):
                ck.begin(('repeated', cname, form))
                try:
                    b = cls().from_urlencoded(form)
                except Exception:
                    b = None
                ck.case(('repeated', cname, form), 'refused' if b is None else 'parsed')
                ck.expect(b is None, 'repeated %s' % cname, '%r parsed as %r' % (form, b and b.to_dict()))
