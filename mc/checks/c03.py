"""Messages of every type x targets (with and without query, odd but legal ones) x query/fragment: the URL is taken apart
with an independent reader and compared with the target and the message's own form."""
import itertools
from urllib.parse import parse_qs, urlsplit

from mc import alpha
from mc.checks.c02 import TIMES, EXTRAS, expected, js, pairs

TECHNIQUE = 'bounded exhaustive enumeration of messages and targets against a reference URL reader'
LEVEL = 'model_checking'
BOUNDS = {'quick': '75 types; single parameters x full alphabet, undeclared ones, everything at once x 33 targets x query/fragment for requests and responses of an authorization, x 4 rotating targets for others; every target query of up to 4 of 15 tokens x 2 messages',
          'thorough': 'all parameter pairs, 33 targets for all types'}
FLOOR = {'quick': 100000, 'thorough': 1000000}
TARGETS = ['https://example.com', 'https://example.com/', 'https://example.com/cb', 'https://example.com/cb?foo=bar', 'https://example.com/cb?',
           'https://example.com/cb?foo=bar&foo=baz&a', 'https://example.com/cb?a=%26%3D%23%3F&b=c+d%20e', 'https://example.com/cb?state=own&scope=x',
           'https://example.com/cb?a=b?c=d', 'https://example.com/cb?a=b&', 'https://u:p@h:8443/p;v=1/a%2Fb%3F%20c', 'https://h/p;v=1?q=1', 'com.example.app:/cb',
           'com.example.app:/cb?x=y', 'http://[::1]:80/x?y=/z/../', 'https://\u00e5.example/\u00e9?\u00fc=%C3%A9', 'urn:ietf:wg:oauth:2.0:oob', '/relative', '/relative?x=1',
           'https://example.com/cb?u=https%3A%2F%2Fx%2F%3Fa%3Db%26c%3Dd%23f', 'https://example.com/cb&x=y', 'https://example.com/cb?==&=x',
           'com.example.app:?x=y', 'app:cb?x', 'mailto:a@b?subject=x', '?x=y', 'cb', 'cb?x=y', '//h/x?y', 'HTTPS://H/?X=Y', 'https://h?a', 'app:', 'https://h/' + 'p' * 3000 + '?' + '&'.join('q%d=v' % i for i in range(300))]
TOKENS = ['a', '=', '&', '?', '/', '%26', '+', ';', ':', '.', '@', '-', '%3D', '~', ',']
MAIN = ('oauth2.AuthorizationRequest', 'oidc.AuthorizationRequest', 'oauth2.AuthorizationResponse', 'oidc.AuthorizationResponse',
        'oidc.AuthorizationErrorResponse', 'oidc.session.EndSessionRequest', 'oidc.session.EndSessionResponse', 'message.Message')


def shards(tier):
    rest = [[n for n in g if n not in MAIN] for g in alpha.pieces(tier, 20)]
    return [('targets', t) for t in TOKENS] + [[n] for n in MAIN] + [g for g in rest if g]


def targets(ck, first):
    """every query of the target made of few tokens"""
    from oidcmsg.message import Message
    from oidcmsg.oauth2 import AuthorizationResponse
    ms = [Message(**{'a': 'b', 'é&=': '?#/'}), AuthorizationResponse(code='a/b?c', state='&=')]
    n = 5 if ck.thorough else 4
    for ln in range(n):
        for rest in itertools.product(TOKENS, repeat=ln):
            for base in ('https://h/p?', 'https://h?'):
                loc = base + first + ''.join(rest)
                for i, m in enumerate(ms):
                    form = [(k, v) for k, v in m.items()]
                    for frag in (False, True):
                        ck.begin(('targets', i, loc, frag))
                        one(ck, type(m).__name__, m, form, str(i), loc, frag)


def run(ck, shard):
    if shard[0] == 'targets':
        return targets(ck, shard[1])
    cs = alpha.classes()
    no = 0
    for cname in shard:
        cls = cs[cname]
        req = {k: (TIMES[0][0] if alpha.is_time(cname, k) else v) for k, v in alpha.required(cname, cls).items()}
        params = [p for p in cls.c_param if p != '*' and alpha.values(cname, cls, p)]
        if ck.thorough:
            cases = [{k: TIMES[alpha.ISO.index(v) % 2][0] if k in cls.c_param and alpha.is_time(cname, k) else v for k, v in kw.items()}
                     for kw in alpha.contents(cname, cls, 'quick', extras=EXTRAS)]
        else:
            cases = [req]
            for p in params:
                for v in alpha.values(cname, cls, p) if not alpha.is_time(cname, p) else [t for t, _ in TIMES]:
                    cases.append(dict(req, **{p: v}))
            cases += [dict(req, **{k: v}) for k, v in EXTRAS] + [dict(req, **dict(EXTRAS))]
            cases += [dict(req, **{p: alpha.values(cname, cls, p)[i % len(alpha.values(cname, cls, p))] if not alpha.is_time(cname, p) else TIMES[0][0]
                                   for p in params}) for i in range(6)]
        if not req and not cls.c_default:
            cases.append({})
        for kw in cases:
            try:
                m = cls(**kw)
            except Exception as e:
                ck.fail('construction', '%s(%r): %r' % (cname, kw, e))
                continue
            form = expected(cname, cls, dict(cls.c_default, **kw))[1]
            own = m.to_urlencoded()
            if cname in MAIN or ck.thorough:
                locs = TARGETS
            else:
                locs = [TARGETS[(no + i * 7) % len(TARGETS)] for i in range(4)]
                no += 1
            for loc in locs:
                for frag in (False, True):
                    ck.begin((cname, kw, loc, frag))
                    one(ck, cname, m, form, own, loc, frag)


def one(ck, cname, m, form, own, loc, frag):
    before = alpha.plain(m)
    try:
        url = m.request(loc, frag)
    except Exception as e:
        ck.fail('exception', repr(e))
        return
    ck.case((cname, own, loc, frag), 'fragment' if frag else 'query')
    ck.expect(alpha.plain(m) == before, 'message changed', 'building the URL changed the message')
    if not ck.expect(isinstance(url, str) and url.startswith(loc), 'target', 'URL %r does not begin with the target' % (url,)):
        return
    head, hash_, fragment = url.partition('#')
    had = pairs(loc.partition('?')[2])
    query = pairs(head.partition('?')[2])
    if frag:
        ck.expect(hash_ == '#' and head == loc, 'fragment target', 'URL %r' % url)
        got = pairs(fragment)
    else:
        ck.expect(not hash_, 'fragment made up', 'URL %r' % url)
        ck.expect(query[:len(had)] == had, 'query of the target', 'had %r, now %r' % (had, query))
        ck.expect(head.partition('?')[0] == loc.partition('?')[0], 'path', 'URL %r' % url)
        got = query[len(had):]
    exp = list(form)
    bad = []
    for k, v in got:
        for x in exp:
            if x[0] == k and (x[1] == v or isinstance(x[1], tuple) and js(v) == x[1][1]):
                exp.remove(x)
                break
        else:
            bad.append((k, v))
    ck.expect(not exp and not bad, 'parameters %s' % cname, lambda: 'missing %r, unexpected %r in %r' % (exp, bad, url))
    # the reader everybody uses agrees
    if not loc.startswith('urn') and '==' not in loc:
        s = urlsplit(url)
        q = parse_qs(s.fragment if frag else s.query, keep_blank_values=True)
        flat = sorted((k, v) for k, vs in q.items() for v in vs)
        ck.expect(flat == sorted(got if frag else query), 'standard reader', lambda: '%r gives %r' % (url, flat))
