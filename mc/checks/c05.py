"""Every message type x every subset (size <= 2) of its required parameters absent or blank in every way x every permitted and
unpermitted value at every place of a list x undeclared parameters, compared with the reviewed table of rules (mc/rules.json)
- acceptance and refusal for types with only declarative rules, refusal for all; each verdict asked for three times."""
import itertools
import json
import os

from mc import alpha
from mc.kit import ABSENT, HERE, NOW, keyjar, sign, verdict

TECHNIQUE = 'bounded exhaustive enumeration of parameter presence and permitted values against a reviewed table of rules'
LEVEL = 'model_checking'
BOUNDS = {'quick': '75 types; <= 2 required parameters absent/null/blank x 5 ways in; every permitted and 12 unpermitted values per permitted list, lists of <= 3; 16 undeclared parameters',
          'thorough': '<= 3 required parameters; lists of <= 4'}
FLOOR = {"quick": 15000, "thorough": 40000}
OP = 'https://op.example'

_rules = None


def rules():
    global _rules
    if _rules is None:
        with open(os.path.join(HERE, 'rules.json')) as fp:
            _rules = json.load(fp)
    return _rules


def id_token():
    return sign({'iss': OP, 'sub': 's', 'aud': ['c'], 'exp': NOW + 600, 'iat': NOW, 'nonce': 'n'}, 'ec_op', 'ES256', kid='ec_op')


def logout_token():
    return sign({'iss': OP, 'aud': ['c'], 'iat': NOW, 'jti': 'j', 'sub': 's', 'events': {'http://schemas.openid.net/event/backchannel-logout': {}}}, 'ec_op', 'ES256', kid='ec_op')


def bases():
    """valid content for the types with further rules, and the arguments for verify"""
    kj = {'keyjar': keyjar(**{OP: ['ec_op']}), 'iss': OP, 'client_id': 'c'}
    idt = id_token()
    A = {'response_type': ['code'], 'client_id': 'c', 'redirect_uri': 'https://rp/cb', 'scope': ['openid']}
    return {
        'oauth2.JWTSecuredAuthorizationRequest': [({'response_type': ['code'], 'client_id': 'c', 'request_uri': 'https://rp/request'}, {})],
        'oidc.AuthnToken': [({'iss': 'c', 'sub': 'c', 'aud': ['x'], 'jti': 'j', 'exp': NOW + 60}, {})],
        'oidc.AuthorizationRequest': [(A, {}), (dict(A, response_type=['code', 'id_token'], nonce='n', prompt=['login', 'consent'], display='page'), {})],
        'oidc.OpenIDRequest': [(A, {})],
        'oidc.IdToken': [({'iss': OP, 'sub': 's', 'aud': ['c'], 'exp': NOW + 60, 'iat': NOW}, {'iss': OP, 'client_id': 'c'})],
        'oidc.MessageWithIdToken': [({'id_token': idt}, kj)],
        'oidc.ProviderConfigurationResponse': [({'issuer': OP, 'authorization_endpoint': OP + '/a', 'jwks_uri': OP + '/j', 'response_types_supported': ['id_token'],
                                                 'subject_types_supported': ['public'], 'id_token_signing_alg_values_supported': ['RS256']}, {})],
        'oidc.session.BackChannelLogoutRequest': [({'logout_token': logout_token()}, kj)],
        'oidc.session.CheckSessionRequest': [({'id_token': idt}, kj)],
        'oidc.session.RefreshSessionRequest': [({'id_token': idt, 'redirect_url': 'https://rp/x', 'state': 's'}, kj)],
        'oidc.session.RefreshSessionResponse': [({'id_token': idt, 'state': 's'}, kj)],
        'oidc.session.LogoutToken': [({'iss': OP, 'aud': ['c'], 'iat': NOW, 'jti': 'j', 'sub': 's', 'events': {'http://schemas.openid.net/event/backchannel-logout': {}}}, {})],
        'oidc.RegistrationRequest': [({'redirect_uris': ['https://rp/cb']}, {}), ({'redirect_uris': ['https://rp/cb'], 'subject_type': 'pairwise', 'application_type': 'native'}, {})],
        'oidc.RegistrationResponse': [({'redirect_uris': ['https://rp/cb'], 'client_id': 'c'}, {})],
        'oidc.JRD': [({'links': [{'rel': 'r'}]}, {})],
        'oidc.identity_assurance.IdDocument': [({'type': 'id_document', 'method': 'pipp', 'verifier': {'organization': 'o', 'txn': 't'}}, {})],
        'oidc.identity_assurance.UtilityBill': [({'type': 'utility_bill', 'provider': {'name': 'n'}}, {})],
        'oidc.identity_assurance.QES': [({'type': 'qes', 'issuer': 'i', 'serial_number': '1', 'created_at': '2020-01-11T11:00:00+0000'}, {})],
        'oidc.identity_assurance.Evidence': [({'type': 'qes', 'issuer': 'i', 'serial_number': '1', 'created_at': '2020-01-11T11:00:00+0000'}, {})],
        'oauth2.device_authorization.AccessTokenRequest': [({'grant_type': 'urn:ietf:params:oauth:grant-type:device_code', 'device_code': 'd', 'client_id': 'c', 'code': 'x', 'redirect_uri': 'y'}, {})],
    }


BLANK = {'str': [None, ''], 'int': [None], 'bool': [None], 'list': [None, []], 'dict': [None, {}], 'msg': [None], 'msgs': [None, []]}
# evidence is judged by the rules of a kind (C22); here only the kind that is stated
NOT_JUDGED = {('oidc.identity_assurance.VerificationElementRequest', 'trust_framework'), ('oauth2.device_authorization.AccessTokenRequest', 'grant_type')}


def shards(tier):
    return alpha.pieces(tier) + ['own']


def filled(name, cls):
    r = rules()[name]
    kw = {}
    for p, (kind, req, _) in r['params'].items():
        if req and p != '*':
            kw[p] = r['allowed'][p][0] if p in r['allowed'] else alpha.values(name, cls, p, True)[0]
    return kw


def run(ck, shard):
    from mc.target import shim
    shim().clock(NOW)
    if shard == 'own':
        return own(ck)
    cs = alpha.classes()
    special = bases()
    for name, r in sorted(rules().items()):
        if name in shard or name not in cs and shard == shards(ck.tier)[0]:
            if ck.expect(name in cs, 'gone ' + name, 'message type is gone'):
                cls = cs[name]
                base = special.get(name) or [(filled(name, cls), {})]
                for kw, args in base:
                    explore(ck, name, cls, r, kw, args)


def own(ck):
    """types an application defines: each documented template for two parameters, with and without permitted values"""
    from mc.checks import c36
    from oidcmsg.message import Message
    from oidcmsg.oauth2 import ResponseMessage
    for (na, ka, ra), parent in itertools.product(c36.TEMPLATES, (Message, ResponseMessage)):
        for allowed in ({}, {'p': c36.ALLOWED[ka]}) if ka in c36.ALLOWED else ({},):
            for order in (0, 1):
                ps = [('p', c36.spec(na)), ('q', c36.spec('SINGLE_REQUIRED_STRING'))]
                cls = c36.declare(parent, dict(ps[::-1] if order else ps), {}, allowed)
                for v, q in itertools.product([ABSENT] + c36.VALUES[ka] + c36.BLANK[ka], (ABSENT, 'x', '0')):
                    kw = {k: x for k, x in (('p', v), ('q', q), ('x_p', 'y')) if x is not ABSENT}
                    for how in ('update', 'constructor'):
                        ck.begin(('own', na, parent.__name__, allowed, kw, how))
                        m = make('own', cls, kw, how)
                        exp = c36.ref_verdict(ka, ra, allowed.get('p'), v) and q is not ABSENT
                        if m is not None:
                            judge(ck, 'own ' + na, None, m, {}, 'required or permitted', exp, (parent.__name__, bool(allowed), order, repr(kw), how))


def judge(ck, name, r, m, args, reason, exp, case):
    """exp: True accepted / False refused / None no statement"""
    vs = [verdict(m, **args) for _ in range(3)]
    ck.case((name, case), 'accepted' if vs[0] is True else 'refused')
    ck.expect((vs[0] is True) == (vs[1] is True) == (vs[2] is True), 'repeated %s' % name, 'verdicts one after another: %r' % vs)
    if exp is not None:
        ck.expect((vs[0] is True) == exp, '%s %s %s' % (reason, 'accepted' if vs[0] is True else 'refused', name), 'verdict %r, %s' % (vs[0], reason))
    return vs[0]


def make(name, cls, kw, how):
    """the same content put into a message in different ways; None: not possible this way"""
    if how == 'update':
        m = cls(set_defaults=False)
        m.update(kw)
        return m
    if how == 'items':
        m = cls(set_defaults=False)
        for k, v in kw.items():
            try:
                m[k] = v
            except Exception:
                return None
        return m
    if how == 'constructor':
        try:
            return cls(set_defaults=False, **kw)
        except Exception:
            return None
    if how == 'json':
        try:
            return cls(set_defaults=False).from_json(json.dumps(kw))
        except Exception:
            return None
    try:
        return cls(set_defaults=False).from_urlencoded(cls(set_defaults=False, **kw).to_urlencoded())
    except Exception:
        return None


WAYS = ('update', 'items', 'constructor', 'json', 'form')


def among(ok, bad):
    """long lists: permitted values only, or one other value at the start, in the middle, at the end"""
    for n in (4, 5, 8, 9, 10, 16, 17, 32, 33, 65, 129, 257):
        for some in [ok, ok[1:], ok[1:2]]:
            vals = (some * n)[:n]
            yield True, vals
            for b in bad:
                for at in sorted({0, 1, 3, n // 2, n - 2, n - 1}) if vals else ():
                    yield False, vals[:at] + [b] + vals[at + 1:]


def explore(ck, name, cls, r, kw, args):
    decl = r['declarative']
    required = [p for p, s in r['params'].items() if s[1] and p != '*']
    kinds = {p: s[0] for p, s in r['params'].items()}
    for how in WAYS:
        ck.begin((name, how, kw))
        m = make(name, cls, kw, how)
        if m is None or not len(m) and kw:
            continue
        judge(ck, name, r, m, args, 'complete', True if decl or how == 'constructor' else None, ('base', how, repr(sorted(kw))))
    if 'request_uri' in kw:     # what it names may hold the rest
        kw = {k: v for k, v in kw.items() if k != 'request_uri'}
    # required parameters missing
    n = 3 if ck.thorough else 2
    for names in itertools.chain.from_iterable(itertools.combinations(required, i) for i in range(1, n + 1)):
        ways = [['absent'] + BLANK[kinds[p]] for p in names]
        for combo in itertools.product(*ways):
            doc = dict(kw)
            for p, w in zip(names, combo):
                if w == 'absent':
                    doc.pop(p, None)
                else:
                    doc[p] = w
            if all((name, p) in NOT_JUDGED for p in names):
                continue
            for how in WAYS[:4]:
                for extra in ({}, {names[0] + '#ja': 'x', 'x_' + names[0]: 'y'}):
                    ck.begin((name, how, doc, extra))
                    m = make(name, cls, dict(doc, **extra), how)
                    if m is not None:
                        judge(ck, name, r, m, args, 'required %s missing' % '/'.join(names), False, ('missing', how, repr(doc), bool(extra)))
    # 0 and False are values
    for p in required:
        for v in {'int': [0, 1, -1, 10 ** 30], 'bool': [True, False]}.get(kinds[p], []):
            for how in WAYS[:4]:
                ck.begin((name, p, v, how))
                m = make(name, cls, dict(kw, **{p: v}), how)
                if ck.expect(m is not None, 'typed', '%s=%r can not be given' % (p, v)):
                    judge(ck, name, r, m, args, 'all present', True if decl else None, ('zero', p, v, how))
    # permitted values
    for p, ok in r['allowed'].items():
        odd = [v.upper() for v in ok[:2]] + [v + ' ' for v in ok[:2]] + [' ' + ok[0], ok[0] + 'x', ok[0][:-1], 'x' + ok[0], 'other', 'None', '0', 'true', '\u00e9',
                                                                        ok[0] + '\n', ok[0].capitalize() if ok[0] != ok[0].capitalize() else 'Zz', ok[-1] + ',' + ok[0]]
        odd = [v for v in dict.fromkeys(odd) if v not in ok]
        if kinds[p] == 'list':
            words = ok + ['other', ok[0].upper(), '0', ok[0] + 'x', '']
            maxlen = 4 if ck.thorough else 3
            for ln in range(1, maxlen + 1):
                for vals in itertools.product(words if ln < 4 else words[:7], repeat=ln):
                    good = all(v in ok for v in vals)
                    for how in ('update', 'constructor', 'form') if ln < 3 else ('constructor',):
                        if vals == ('',) or how == 'form' and '' in vals:
                            continue
                        ck.begin((name, p, vals, how))
                        m = make(name, cls, dict(kw, **{p: list(vals)}), how)
                        if ck.expect(m is not None, 'typed', '%s=%r can not be given' % (p, vals)):
                            judge(ck, name, r, m, args, 'permitted' if good else 'not permitted', (True if decl else None) if good else False, ('allowed', p, vals, how))
            for good, vals in among(ok, ['other', ok[0].upper(), ok[0] + ' ']):
                for how in ('update', 'constructor', 'json', 'form'):
                    ck.begin((name, p, len(vals), vals.index('other') if 'other' in vals else None, how))
                    m = make(name, cls, dict(kw, **{p: vals}), how)
                    if ck.expect(m is not None, 'typed', '%s=%r can not be given' % (p, vals)):
                        judge(ck, name, r, m, args, 'permitted' if good else 'not permitted', (True if decl else None) if good else False, ('allowed', p, len(vals), hash(tuple(vals)), how))
            continue
        for v in ok + odd:
            for how in WAYS:
                for extra in ({}, {'x': 'y'}, {p + '#ja': 'other'}):
                    ck.begin((name, p, v, how, extra))
                    m = make(name, cls, dict(kw, **{p: v}, **extra), how)
                    if ck.expect(m is not None, 'typed', '%s=%r can not be given' % (p, v)):
                        judge(ck, name, r, m, args, 'permitted' if v in ok else 'not permitted', (True if decl else None) if v in ok else False, ('allowed', p, v, how, repr(extra)))
        # absent or blank: no violation of the list of permitted values
        if p not in required:
            for v in BLANK[kinds[p]]:
                m = make(name, cls, dict(kw, **{p: v}), 'update')
                judge(ck, name, r, m, args, 'blank optional', True if decl else None, ('blank', p, v))
    # optional parameters do not matter, undeclared ones never
    if decl:
        for p in kinds:
            if p in required or p in r['allowed'] or p == '*':
                continue
            vs = alpha.values(name, cls, p)[:4] if not alpha.is_time(name, p) else alpha.ISO[:1]
            for v in vs + BLANK[kinds[p]]:
                ck.begin((name, p, v))
                judge(ck, name, r, make(name, cls, dict(kw, **{p: v}), 'update'), args, 'optional parameter', True, ('optional', p, repr(v)))
        for k, v in alpha.EXTRAS:
            for how in ('update', 'constructor', 'json'):
                ck.begin((name, k, v, how))
                m = make(name, cls, dict(kw, **{k: v}), how)
                judge(ck, name, r, m, args, 'undeclared parameter', True, ('extra', k, how))
