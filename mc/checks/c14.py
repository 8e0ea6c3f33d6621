"""Full product of the parameters that the rules of an OpenID authorization request mention, directly (object and form
transport) and as content of a signed or unsigned request object; every verdict is compared with a decision table."""
import itertools

from mc.kit import ABSENT, keyjar, near, product, sign, transport, unsigned, verdict

TECHNIQUE = 'bounded exhaustive enumeration of parameter products against a decision table'
LEVEL = 'model_checking'
BOUNDS = {'quick': '19 response types x 9 scopes x 12 prompts x 6 displays x nonce/expected nonce x required-parameter presence; '
                   'the same, smaller, inside request objects; accepted and refused contents beside every other parameter',
          'thorough': 'full product also for form encoding and request objects'}
FLOOR = {'quick': 80000, 'thorough': 400000}

# every order of every combination
RT = [ABSENT] + [list(o) for n in (1, 2, 3) for o in itertools.permutations(['code', 'id_token', 'token'], n)]
RT += [['none'], ['token', 'id_tokens'], ['code', 'x', 'id_token', 'y', 'z']]
SCOPE = [['openid'], ABSENT, ['profile'], ['openid', 'offline_access'], ['offline_access'], ['profile', 'openid'],
         ['openidx', 'OPENID'], ['offline_access', 'email', 'openid'], ['openid', 'offline']]
PROMPT = [ABSENT, ['none'], ['login'], ['consent'], ['select_account'], ['login', 'consent'], ['none', 'login'],
          ['consent', 'none'], ['always'], ['login', 'x'], ['consent', 'login', 'select_account'], ['consents']]
DISPLAY = [ABSENT, 'page', 'popup', 'touch', 'wap', 'Page']
NONCE = [ABSENT, 'n1', 'n2']


def rules(p, expected=None):
    for r in ('response_type', 'client_id', 'redirect_uri', 'scope'):
        if r not in p:
            return False
    if 'openid' not in p['scope']:
        return False
    if 'display' in p and p['display'] not in ('page', 'popup', 'touch', 'wap'):
        return False
    pr = p.get('prompt', [])
    if any(x not in ('none', 'login', 'consent', 'select_account') for x in pr):
        return False
    if 'none' in pr and len(pr) > 1:
        return False
    if 'offline_access' in p['scope'] and 'consent' not in pr:
        return False
    if 'id_token' in p['response_type']:
        if 'nonce' not in p:
            return False
        if expected is not None and p['nonce'] != expected:
            return False
    return True


def shards(tier):
    res = [('direct', how, i) for how in ('object', 'form') for i in range(len(RT))]
    res += [('object', i) for i in range(len(RT))]
    return [('beside',)] + res


def judge(ck, m, exp, args, key, sig):
    v = verdict(m, **args)
    ck.case(key, 'accepted' if v is True else 'refused')
    ck.expect((v is True) == exp, '%s %s' % (sig, 'accepted' if v is True else 'refused'),
              'verdict %s, expected %s' % (v, exp))


def run(ck, shard):
    if shard[0] == 'beside':
        from mc import bystanders
        return bystanders.run(ck, 'C14')
    from oidcmsg.oidc import AuthorizationRequest
    kj = keyjar(client_1=['oct_rp'], own=['oct_rp'])
    full = ck.thorough
    if shard[0] == 'direct':
        how = shard[1]
        small = how == 'form' and not full
        t = {'response_type': [RT[shard[2]]], 'scope': SCOPE, 'prompt': PROMPT[:9] if small else PROMPT,
             'display': DISPLAY[:2] + DISPLAY[5:] if small else DISPLAY, 'nonce': NONCE,
             'client_id': ['client_1', ABSENT], 'redirect_uri': ['https://rp.example.com/cb?a=b', ABSENT], 'state': ['s']}
        for p in product(t):
            for e in (None, 'n1'):
                args = {'keyjar': kj}
                if e:
                    args['nonce'] = e
                ck.begin((shard, p, e))
                judge(ck, transport(AuthorizationRequest, p, how), rules(p, e), args, (how, repr(p), e), 'direct')
        if RT[shard[2]] is not ABSENT and how == 'object':
            base = {'response_type': RT[shard[2]], 'scope': ['openid'], 'client_id': 'c', 'redirect_uri': 'https://x', 'nonce': 'n1'}
            for extra in ({'max_age': 0}, {'ui_locales': ['sv', 'en']}, {'acr_values': ['1']}, {'login_hint': 'é'}, {'x': 'y'},
                          {'claims': {'userinfo': {'a': None}}}, {'registration': {'a': 'b'}}, {'response_mode': 'form_post'}):
                p = dict(base, **extra)
                ck.begin((shard, p))
                judge(ck, AuthorizationRequest(**p), True, {'keyjar': kj}, repr(p), 'with optional parameters')
                m = AuthorizationRequest(**p)
                verdict(m, keyjar=kj)
                judge(ck, m, True, {'keyjar': kj}, repr(p) + ' again', 'verified again')
            # an expected nonce is met by the same text only
            if 'id_token' in RT[shard[2]]:
                for n in ('n1', 'n-0S6_WzA2Mj', 'Åb'):
                    for x in [n] + near(n):
                        for a, e in ((n, x), (x, n)):
                            if not a or not e:
                                continue
                            p = dict(base, nonce=a)
                            ck.begin((shard, p, e))
                            judge(ck, AuthorizationRequest(**p), a == e, {'keyjar': kj, 'nonce': e}, ('near', a, e), 'near miss of a nonce')
            # null is no nonce
            p = dict(base, nonce=None)
            judge(ck, AuthorizationRequest(**p), 'id_token' not in RT[shard[2]], {'keyjar': kj}, repr(p), 'null nonce')
        return
    # parameters come from a request object
    outer = {'response_type': ['code'], 'client_id': 'client_1', 'redirect_uri': 'https://rp.example.com/cb', 'scope': ['openid']}
    t = {'response_type': [RT[shard[1]]], 'scope': SCOPE if full else SCOPE[:6], 'prompt': PROMPT if full else PROMPT[:1] + PROMPT[2:4] + PROMPT[5:9],
         'display': DISPLAY[:2] + DISPLAY[5:], 'nonce': NONCE, 'client_id': ['client_1', ABSENT],
         'redirect_uri': ['https://rp.example.com/cb', ABSENT]}
    for n, p in enumerate(product(t)):
        body = dict(p)
        for k in ('response_type', 'scope', 'prompt'):
            if k in body and n % 2:
                body[k] = ' '.join(body[k])
        tok = sign(dict(body, iss='client_1'), 'oct_rp', 'HS256') if n % 3 else unsigned(body)
        for o in (outer, dict(outer, prompt=['consent'], nonce='n1', display='page')):
            for e in (None, 'n1'):
                args = {'keyjar': kj}
                if e:
                    args['nonce'] = e
                ck.begin((shard, o, body, e, 'signed' if n % 3 else 'unsigned'))
                judge(ck, AuthorizationRequest(request=tok, **o), rules(p, e), args, ('ro', repr(o), repr(p), e), 'request object')
