"""User info: every date shape over all months/days (incl. leap years), every claim null; error responses: every single
character of the bounded alphabet at every position, every error class x every error code. Verdicts are compared with
an independently written decision procedure, directly and after JSON transport."""
import datetime
import itertools
import json

TECHNIQUE = 'bounded exhaustive enumeration of inputs against a reference decision procedure'
LEVEL = 'model_checking'
BOUNDS = {'quick': 'characters 0-0x17f + 40 others at each of 3 positions; all days of 7 years and year 0000; 14 malformed shapes; accepted and refused contents beside every other parameter',
          'thorough': 'all BMP characters; all days of 40 years'}
FLOOR = {'quick': 15000, 'thorough': 300000}

AUTHZ = ["invalid_request", "unauthorized_client", "access_denied", "unsupported_response_type", "invalid_scope",
         "server_error", "temporarily_unavailable"]
OIDC_AUTHZ = AUTHZ + ["interaction_required", "login_required", "session_selection_required", "consent_required",
                      "invalid_request_uri", "invalid_request_object", "registration_not_supported",
                      "request_not_supported", "request_uri_not_supported"]
TOKEN = ["invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type", "invalid_scope"]
CODES = {'oauth2.AuthorizationErrorResponse': AUTHZ, 'oidc.AuthorizationErrorResponse': OIDC_AUTHZ,
         'oauth2.TokenErrorResponse': TOKEN, 'oidc.TokenErrorResponse': TOKEN,
         'oidc.ClientRegistrationErrorResponse': ["invalid_redirect_uri", "invalid_client_metadata", "invalid_configuration_parameter"],
         'oidc.UserInfoErrorResponse': ["invalid_schema", "invalid_request", "invalid_token", "insufficient_scope"],
         'oauth2.ResponseMessage': None}


def is_ok_char(ch):
    o = ord(ch)
    return 0x20 <= o <= 0x21 or 0x23 <= o <= 0x5b or 0x5d <= o <= 0x7e


def shards(tier):
    res = [('desc', c, part) for c in CODES for part in range(2)] + [('code', c) for c in CODES]
    res += [('date', c, p) for c in ('oidc.OpenIDSchema', 'oidc.IdToken') for p in range(3)]
    res += [('null', c) for c in ('oidc.OpenIDSchema',)]
    return [('beside',)] + res


def verdict(m):
    try:
        return bool(m.verify())
    except Exception as e:
        return repr(e)


def both(ck, cls, kw, ok, sig):
    """as object and after transport; verify twice"""
    ck.begin((cls.__name__, kw))
    for how in ('object', 'json'):
        m = cls(**kw)
        if how == 'json':
            m = cls().from_json(m.to_json())
        v = verdict(m)
        ck.case((cls.__module__, cls.__name__, repr(kw), how), 'accepted' if v is True else 'refused')
        ck.expect((v is True) == ok, '%s %s' % (sig, 'accepted' if v is True else 'refused'),
                  '%s %s: verdict %r expected %r' % (how, kw, v, ok))


def date_ok(t):
    """YYYY, YYYY-MM-DD, 0000-MM-DD"""
    if len(t) == 4 and t.isascii() and t.isdigit():
        return t != '0000'
    if len(t) != 10 or t[4] != '-' or t[7] != '-':
        return False
    y, m, d = t[:4], t[5:7], t[8:]
    if not all(x.isascii() and x.isdigit() for x in (y, m, d)):
        return False
    try:
        datetime.date(int(y) or 2000, int(m), int(d))
    except ValueError:
        return False
    return True


def run(ck, shard):
    if shard[0] == 'beside':
        from mc import bystanders
        return bystanders.run(ck, 'C20')
    from mc import alpha
    classes = alpha.classes()
    cls = classes[shard[1]]
    base = {'oidc.IdToken': {'iss': 'i', 'sub': 's', 'aud': ['a'], 'exp': 9999999999, 'iat': 9999999000},
            'oidc.OpenIDSchema': {'sub': 's'}}.get(shard[1], {})
    if shard[0] == 'desc':
        hi = 0x10000 if ck.thorough else 0x180
        chars = [chr(c) for c in range(hi) if not 0xd800 <= c < 0xe000]
        chars += [chr(c) for c in (0x2028, 0x2029, 0xfeff, 0xfffd, 0x10000, 0x1f600, 0x10ffff, 0x3042, 0x661, 0xff21, 0x2212)]
        err = {} if CODES[shard[1]] is None else {'error': CODES[shard[1]][0]}
        for i, ch in enumerate(chars):
            if i % 2 != shard[2]:
                continue
            for d in (ch, ch + 'ok', 'o' + ch + 'k', 'ok' + ch):
                if ck.thorough and ord(ch) > 0x180 and d != 'o' + ch + 'k':
                    continue
                both(ck, cls, dict(err, error_description=d), is_ok_char(ch), 'description')
        for n in (1, 2, 16, 17, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 5000, 8193):
            both(ck, cls, dict(err, error_description='x' * n), True, 'description')
            for ch in '\n"\\é\x7f\0':
                for at in sorted({0, n // 2, n - 2 if n > 1 else 0, n - 1}):
                    both(ck, cls, dict(err, error_description='x' * at + ch + 'x' * (n - at - 1)), False, 'long description')
    elif shard[0] == 'code':
        allcodes = sorted({c for l in CODES.values() if l for c in l})
        weird = ['Invalid_request', 'invalid_request ', ' invalid_request', 'invalid', 'x', 'invalid_requestx', 'INVALID_REQUEST',
                 'invalid_request,invalid_scope', 'é', 'nvalid_request', 'null', '0']
        for c in allcodes + weird:
            ok = CODES[shard[1]] is None or c in CODES[shard[1]]
            both(ck, cls, {'error': c}, ok, 'error code')
            both(ck, cls, {'error': c, 'error_description': 'fine', 'error_uri': 'https://x/', 'extra': 'y'}, ok, 'error code')
            both(ck, cls, {'error': c, 'error_description': 'not "fine"'}, False, 'error code and description')
        from oidcmsg.oauth2 import is_error_message
        for name, c in classes.items():
            # whether a message reports an error: of any type, parsed or built
            for kw in ({}, {'error': 'x'}, {'error_description': 'error', 'error_uri': 'error'}, {'state': 'error'}, {'Error': 'x'}, {'error': 'x', 'state': 's'}):
                for m in (c(**kw), c().from_json(json.dumps(kw)), kw):
                    ck.begin(('is error', name, kw))
                    ck.case(('is error', name, repr(kw), type(m).__name__), 'error' if 'error' in kw else 'no error')
                    ck.expect(bool(is_error_message(m)) == ('error' in kw), 'error message', '%r' % (kw,))
        both(ck, cls, {'error_description': 'ok'}, True, 'no error code')
        both(ck, cls, {}, True, 'no error code')
    elif shard[0] == 'date':
        n = 0
        years = ['0000', '1900', '2000', '2023', '2024', '1', '9999', '0001', '1582']
        if ck.thorough:
            years += ['%04d' % y for y in range(1980, 2020)]
        for y, m, d in itertools.product(years, range(0, 14), range(0, 33)):
            n += 1
            if n % 3 != shard[2]:
                continue
            t = '%s-%02d-%02d' % (y, m, d)
            if len(y) == 4:
                both(ck, cls, dict(base, birthdate=t), date_ok(t), 'birthdate')
        if shard[2] == 0:
            for y in ['%04d' % y for y in list(range(1, 40)) + list(range(1890, 2110)) + [9999]]:
                both(ck, cls, dict(base, birthdate=y), True, 'birthdate')
            for t in ['12', '123', '12345', '99', 'abcd', '20-01-01', '01-01-2000', '2000/01/01', '2000.01.01',
                      '2000-01', '2000-01-01-01', '2000-01-01T00:00:00Z', '0000-00-00', '0000-13-01', '0000-02-30',
                      '0000-02-31', '0000', '-2000', '2000-', '2000--01', '--01-01', '2000-ab-01', 'x2000-01-01',
                      '2000-01-01x', 'birth', '0000-01', '1900-02-29', '2023-02-29', '2000-1-1',
                      '2000-01- 1', '2000-1-01', '2000-01-1', '0000-1-1', '0000-01- 1', '\u0662\u0660\u0660\u0660', '2000-\u0660\u0661-01',
                      '2000-01-01\n', '2000\n', ' 2000', '2000 ']:
                both(ck, cls, dict(base, birthdate=t), date_ok(t), 'birthdate')
    else:
        for p, spec in cls.c_param.items():
            if p in base:
                continue
            both(ck, cls, dict(base, **{p: None}), False, 'null claim')
            both(ck, cls, dict(base, birthdate='2000-01-01', **({p: None} if p != 'birthdate' else {'name': None})), False, 'null claim')
        for p in ('extra', 'x#y', 'http://claim', 'name#ja', '0'):
            both(ck, cls, dict(base, **{p: None}), False, 'null claim')
            both(ck, cls, dict(base, **{p: 'v'}), True, 'no null claim')
        for p in cls.c_param:
            if p in ('birthdate', 'error_description'):
                continue
            for v in alpha.values(shard[1], cls, p, True):
                if v in (None, '', [], {}) or (v == {'n': None}):
                    continue
                both(ck, cls, dict(base, **{p: v}), True, 'non-null claim')
        for v in (0, False):
            both(ck, cls, dict(base, **{'updated_at': 0} if v == 0 and v is not False else {'email_verified': False}), True, 'non-null claim')
