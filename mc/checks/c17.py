"""Full product of boundary times, skews, audiences and issuers for a JWT claim set and a client authentication token under
a virtual clock; every verdict is compared with a decision table."""
import itertools

from mc import target
from mc.kit import ABSENT, NOW, lists_of, near, product, transport, verdict

TECHNIQUE = 'bounded exhaustive enumeration of claim products under a virtual clock against a decision table'
LEVEL = 'model_checking'
BOUNDS = {'quick': 'exp/iat/nbf at the boundary seconds of 4 skews, 2 clocks x 6 audiences x 5 issuers (pairwise with times); accepted and refused contents beside every other parameter',
          'thorough': 'full product of times, audience and issuer'}
FLOOR = {'quick': 50000, 'thorough': 500000}
SKEWS = [ABSENT, 0, 1, 300]


def offs(s):
    return sorted({-10 ** 6, -s - 1, -s, -s + 1, -1, 0, 1, s - 1, s, s + 1, 10 ** 6})


def rules(c, args, now):
    s = args.get('skew', 0)
    if 'exp' in c and now - s > c['exp']:
        return False
    if 'iat' in c and c['iat'] > now + s:
        return False
    if 'nbf' in c and c['nbf'] > now + s:
        return False
    if 'aud' in c and 'aud' in args:
        aud = c['aud'] if isinstance(c['aud'], list) else [c['aud']]
        if args['aud'] not in aud:
            return False
    if 'iss' in c and 'iss' in args and c['iss'] != args['iss']:
        return False
    return True


def shards(tier):
    return [('beside',)] + [(c, s, f) for c in ('JsonWebToken', 'AuthnToken') for s in range(len(SKEWS)) for f in (0, 0.999)]


def run(ck, shard):
    if shard[0] == 'beside':
        from mc import bystanders
        return bystanders.run(ck, 'C17')
    from oidcmsg import oidc
    name, si, frac = shard
    cls = getattr(oidc, name)
    skew = SKEWS[si]
    s = 0 if skew is ABSENT else skew
    now = NOW + (0 if frac else 1234567)
    target.shim().clock(now + frac)
    req = ('iss', 'sub', 'aud', 'jti', 'exp') if name == 'AuthnToken' else ()
    base = {'sub': 's', 'jti': 'j'}
    many = ['https://rp%d.example.com' % i for i in range(300)]
    times = [ABSENT, 0, 1, -1, 10 ** 11] + [now + o for o in offs(s)]
    auds = [ABSENT, ['a'], 'a', ['b', 'a'], ['aa', 'A'], ['b'], many + ['a'], many]
    isss = [ABSENT, 'i', 'ii']

    def go(t, args_t, how='object'):
        for c in product(t):
            kw = dict(base, **c)
            exp0 = all(r in kw for r in req)
            for args in product(args_t):
                ck.begin((name, how, kw, args, now))
                exp = exp0 and rules(kw, args, now)
                v = verdict(transport(cls, kw, how), **args)
                ck.case((name, how, repr(kw), repr(args)), 'accepted' if v is True else 'refused')
                ck.expect((v is True) == exp, '%s %s' % (name, 'accepted' if v is True else 'refused'),
                          'now %d: verdict %s, expected %s' % (now, v, exp))
    if ck.thorough:
        go({'exp': times, 'iat': times, 'nbf': times, 'aud': auds[:4] + auds[5:6], 'iss': isss},
           {'skew': [skew], 'aud': [ABSENT, 'a'], 'iss': [ABSENT, 'i']})
    else:
        go({'exp': times, 'iat': times, 'nbf': times, 'aud': [['a']], 'iss': ['i']}, {'skew': [skew], 'aud': ['a'], 'iss': ['i']})
        go({'exp': [now - s - 1, now - s, now], 'iat': [ABSENT, now + s, now + s + 1], 'nbf': [ABSENT, now - s, now + s, now + s + 1], 'aud': auds,
            'iss': isss}, {'skew': [skew], 'aud': [ABSENT, 'a', 'b'], 'iss': [ABSENT, 'i', 'I']})
    go({'exp': [now - s - 1, now - s], 'iat': [ABSENT, now + s + 1], 'nbf': [now + s, now + s + 1], 'aud': auds, 'iss': isss},
       {'skew': [skew], 'aud': [ABSENT, 'a'], 'iss': [ABSENT, 'i']}, 'json')
    rp = 'https://rp.example.com/Aé'
    for n, (_, aud) in enumerate(lists_of(rp)):
        go({'exp': [now + 1], 'iat': [now], 'aud': [aud], 'iss': ['i']}, {'skew': [skew], 'aud': [rp], 'iss': ['i']}, ('object', 'json', 'dict')[n % 3])
    for x in near(rp):
        go({'exp': [now + 1], 'iat': [now], 'aud': [[x] if ' ' in x else x, [x], [rp]], 'iss': [rp]}, {'skew': [skew], 'aud': [rp, x], 'iss': [rp, x]})
        go({'exp': [now + 1], 'iat': [now], 'aud': [rp], 'iss': [x]}, {'skew': [skew], 'aud': [rp], 'iss': [rp, x]}, 'json')
    # a claim that says the same as another one
    for other in ('sub', 'jti', 'azp', 'client_id', 'nonce', 'iss', 'Aud', 'audience', 'aud#x', 'x_aud', 'issuer'):
        for val in (rp, 'https://op.example.com', [rp]):
            if isinstance(val, list) and other in ('sub', 'jti', 'iss'):
                continue
            for aud, iss in itertools.product((ABSENT, ['x'], 'x', rp, [rp, 'x']), ('https://op.example.com', 'other', ABSENT)):
                c = {'exp': [now + 1], 'iat': [now], 'aud': [aud], 'iss': [iss], other: [val]}
                go(c, {'skew': [skew], 'aud': [ABSENT, rp, 'y'], 'iss': [ABSENT, 'https://op.example.com']}, 'object')
                go(c, {'skew': [skew], 'aud': [rp], 'iss': ['https://op.example.com']}, 'json')
    # required claims one by one
    full = {'iss': 'i', 'sub': 's', 'aud': ['a'], 'jti': 'j', 'exp': now + 10, 'iat': now - 1, 'nbf': now - 10 - s}
    for r in full:
        kw = {k: v for k, v in full.items() if k != r}
        ck.begin((name, 'without', r))
        v = verdict(cls(**kw), **({} if skew is ABSENT else {'skew': skew}))
        ck.case((name, 'without', r), 'accepted' if v is True else 'refused')
        ck.expect((v is True) == (r not in req), 'required ' + r, 'verdict %s' % v)
    target.shim().clock_off()
