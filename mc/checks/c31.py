"""All names x parameter sets x both factories: the pinned table of protocol message names (and every other public name
of the modules, non-message classes and misspellings) is looked up, and the result compared with the table."""
import inspect

TECHNIQUE = 'bounded exhaustive enumeration of names and parameter sets against a reference table'
LEVEL = 'model_checking'
BOUNDS = {'quick': 'every name of both modules and its misspellings x parameter sets of size <= 1 (+ all required)',
          'thorough': 'parameter sets of size <= 2'}
FLOOR = {'quick': 1500, 'thorough': 2000}

OAUTH2 = '''ResponseMessage AuthorizationErrorResponse TokenErrorResponse AccessTokenRequest AuthorizationRequest
AuthorizationResponse AccessTokenResponse NoneResponse ROPCAccessTokenRequest CCAccessTokenRequest
RefreshAccessTokenRequest ResourceRequest ASConfigurationResponse TokenIntrospectionRequest TokenIntrospectionResponse
TokenExchangeRequest TokenExchangeResponse JWTSecuredAuthorizationRequest PushedAuthorizationRequest
SecurityEventToken'''.split()
OIDC = '''RefreshAccessTokenRequest TokenErrorResponse AccessTokenResponse UserInfoRequest AuthorizationResponse
AuthorizationErrorResponse AuthorizationRequest AccessTokenRequest AddressClaim OpenIDSchema RegistrationRequest
RegistrationResponse ClientRegistrationErrorResponse IdToken MessageWithIdToken OpenIDRequest
ProviderConfigurationResponse JsonWebToken AuthnToken UserInfoErrorResponse DiscoveryRequest Link JRD WebFingerRequest
ResourceRequest Claims ClaimsRequest'''.split()
UNKNOWN = ['', 'Nope', 'message', 'MESSAGE', 'JWT', 'AtHashError', 'CHashError', 'IdTokenX', 'XIdToken', 'Message ', 'Id',
           'VerificationError', 'inspect', 'logger', 'factory', 'oauth2', 'None', 'object', 'LogoutToken',
           'OidcMsgError', 'ID_TOKEN_VERIFY_ARGS', '__main__', 'Evidence', 'CheckIDRequest', 'MutableMapping', 'str']

ODD = [('x_tuple', ('a', 'b')), ('x_bytes', b'a'), ('x_set', {'a'}), ('x_null', None), ('x_zero', 0), ('x_type', str), ('x_long', 'é' * 5000), ('x_many', ['a'] * 500),
       ('x_deep', {'a': [{'b': [None, {'c': ()}]}]}), ('x_fun', len), ('x_bare', object())]


def shards(tier):
    return ['oauth2', 'oidc']


def run(ck, which):
    from mc import alpha
    from oidcmsg import oauth2
    from oidcmsg import oidc
    from oidcmsg.message import Message
    cls = alpha.classes()
    exp = {n: ('oauth2.' + n) for n in OAUTH2}
    if which == 'oidc':
        exp.update({n: 'oidc.' + n for n in OIDC})
    mod = {'oauth2': oauth2, 'oidc': oidc}[which]
    names = sorted(exp)
    for rnd in range(2):
        for n in names:
            c = cls.get(exp[n])
            ck.begin((which, n))
            if not ck.expect(c is not None, 'gone ' + exp[n], 'class is gone'):
                continue
            sets = [{}]
            for p in c.c_param:
                for v in alpha.values(exp[n], c, p, True)[:1 if not ck.thorough else 2]:
                    sets.append({p: v})
            sets += [{'x_extra': 'e', 'y': ['1']}, alpha.required(exp[n], c)]
            if ck.thorough:
                ps = [p for p in c.c_param]
                sets += [{p: alpha.values(exp[n], c, p, True)[0], q: alpha.values(exp[n], c, q, True)[0]}
                         for i, p in enumerate(ps) for q in ps[i + 1:]
                         if alpha.values(exp[n], c, p, True) and alpha.values(exp[n], c, q, True)]
            sets += [{k: v} for k, v in alpha.EXTRAS + ODD] + [dict(alpha.EXTRAS), dict(ODD)]
            for kw in sets:
                ck.begin((which, n, kw))
                m = mod.factory(n, **kw)
                ck.case((which, n, repr(sorted(kw))), 'found')
                if not ck.expect(type(m) is c, 'type ' + which + '.' + n, 'got %r, expected %r' % (type(m), c)):
                    continue
                ck.expect(alpha.plain(m) == alpha.plain(c(**kw)), 'content ' + which + '.' + n,
                          lambda: 'factory gives %r, the class %r' % (m.to_dict(), c(**kw).to_dict()))
                other = mod.factory(n, **kw)
                ck.expect(other is not m and all(other.get(k) is m[k] or other.get(k) == m[k] for k in m), 'same object ' + which + '.' + n, 'two messages made are one')
                missing = [k for k in list(kw) + list(c.c_default) if k not in m]
                ck.expect(not missing, 'lost ' + which + '.' + n, 'parameters lost: %r' % missing)
                other = [k for k in m if k not in kw and k not in c.c_default]
                ck.expect(not other, 'made-up ' + which + '.' + n, 'parameters made up: %r' % other)
        # names that are no message names of the protocol
        public = [n for n, o in inspect.getmembers(mod) if not (inspect.isclass(o) and issubclass(o, Message))]
        bad = set(UNKNOWN) | set(public) | {f(n) for n in names for f in (str.lower, str.upper, lambda s: s + 's',
                                                                        lambda s: s[:-1], lambda s: ' ' + s)}
        if which == 'oauth2':
            bad |= set(OIDC) - set(OAUTH2)
        have = {o.__name__ for _, o in inspect.getmembers(mod) if inspect.isclass(o) and issubclass(o, Message)}
        have |= {o.__name__ for _, o in inspect.getmembers(oauth2) if inspect.isclass(o) and issubclass(o, Message)}
        for n in sorted(bad - (have - set(OIDC) if which == 'oauth2' else have)):
            if n in exp:
                continue
            ck.begin((which, n))
            m = mod.factory(n, x='1')
            ck.case((which, n), 'nothing')
            ck.expect(m is None, 'unknown ' + n, 'got %r' % (m,))
