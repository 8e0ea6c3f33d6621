"""Part one: every message type x 21 ways of using a message of it (defaults, values changed deeply, parsing good and bad
input, serialising, verifying, signing, copying, ...); after every use all rules of all types, fresh default messages,
bystander messages and the verdicts on a set of probe messages are compared with what they were (the rules also with the
reviewed table). Part two: all orders of importing the library's modules, each in a process of its own, with the rules of
every loaded type compared with the table after every import."""
import copy
import itertools
import json
import os
import pickle

from mc import alpha, target
from mc.checks.c05 import OP, bases, filled, rules
from mc.kit import NOW, key, keyjar, verdict

TECHNIQUE = 'bounded exhaustive enumeration of uses and import orders with complete state snapshots'
LEVEL = 'model_checking'
BOUNDS = {'quick': '75 types x 21 uses x 3 fillings, in two orders; all 720 import orders of 6 modules', 'thorough': 'all 5040 import orders of 7 modules; uses in four orders'}
FLOOR = {'quick': 5000, 'thorough': 12000}
IMPORTS = ['oidcmsg.message', 'oidcmsg.oauth2', 'oidcmsg.oauth2.device_authorization', 'oidcmsg.oidc', 'oidcmsg.oidc.session', 'oidcmsg.oidc.identity_assurance', 'oidcmsg.context']


def shards(tier):
    n = 4 if tier == 'thorough' else 2
    return [('use', rev, i) for rev in range(n) for i in range(12)] + [('import', i) for i in range(7 if tier == 'thorough' else 6)]


def snapshot(cs):
    return {n: {'params': {p: [alpha.kind(s), bool(s[1]), bool(s[4])] for p, s in c.c_param.items()},
                'allowed': {k: list(v) for k, v in c.c_allowed_values.items()}, 'default': copy.deepcopy(c.c_default)} for n, c in cs.items()}


def table(names):
    return {n: {k: rules()[n][k] for k in ('params', 'allowed', 'default')} for n in names}


def difference(a, b):
    for n in sorted(set(a) | set(b)):
        if a.get(n) != b.get(n):
            x, y = a.get(n), b.get(n)
            if x and y:
                for k in x:
                    if x[k] != y[k]:
                        return '%s %s: %r, expected %r' % (n, k, x[k], y[k])
            return '%s: %r, expected %r' % (n, x, y)


# --- using messages ---------------------------------------------------------
def spoil(v, depth=0):
    """change a value in every way its type allows"""
    if depth > 6:
        return
    if hasattr(v, 'c_param'):
        for x in list(v.values()):
            spoil(x, depth + 1)
        v.update({'spoiled': ['s'], 'scope': 'spoiled', 'error': 'spoiled'})
        return
    if isinstance(v, dict):
        for x in list(v.values()):
            spoil(x, depth + 1)
        v['spoiled'] = 's'
    elif isinstance(v, list):
        for x in v:
            spoil(x, depth + 1)
        v.append('spoiled')
        v.reverse()


def fillings(name, cls):
    params = [p for p in cls.c_param if p != '*' and alpha.values(name, cls, p)]
    full = {p: (rules()[name]['allowed'][p][0] if p in rules()[name]['allowed'] else alpha.values(name, cls, p)[0]) for p in params}
    for p in full:
        if alpha.kind(cls.c_param[p]) == 'list' and isinstance(full[p], str):
            full[p] = [full[p]]
    special = bases().get(name)
    return [{}, special[0][0] if special else filled(name, cls), full]


class Shared(Exception):
    pass


def uses(name, cls, kw, kj):
    kw = copy.deepcopy(kw)
    args = {'keyjar': kj, 'iss': OP, 'client_id': 'c', 'allow_http': True}

    def new(**a):
        return cls(**copy.deepcopy(dict(kw, **a)))

    def parsed():
        m = cls().from_json(new().to_json())
        spoil(m)
        m = cls().from_dict(copy.deepcopy(new().to_dict()))
        spoil(m)

    def form():
        x = new()
        x.lax = True
        m = cls().from_urlencoded(x.to_urlencoded()) if len(x) else cls()
        spoil(m)

    def again():
        """the same text read twice gives two messages that do not share anything"""
        x = new(zz=['1', '2'])
        js = json.dumps(dict(json.loads(x.to_json()), zy={'a': [{'b': ['c']}]}))
        texts = [('json', js, lambda: cls().from_json(js))]
        x.lax = True
        try:
            form = x.to_urlencoded() + '&zx=1&zx=2'
            texts.append(('form', form, lambda: cls().from_urlencoded(form)))
        except Exception:
            pass
        try:
            t = new(zz=['1', '2'], zy={'a': ['b']}).to_jwt([key('oct_op')], 'HS256')
            ks = keyjar(own=['oct_op'], **{i: ['oct_op'] for i in (OP, 'c')})
            texts.append(('token', t, lambda: cls().from_jwt(t, ks)))
        except Exception:
            pass
        for how, txt, read in texts:
            try:
                a = read()
            except Exception:
                continue
            before = alpha.plain(a)
            spoil(a)
            b = read()
            if alpha.plain(b) != before:
                raise Shared('the same %s read again after the first message was changed: %r, at first %r' % (how, alpha.plain(b), before))

    def bad():
        for doc in ({'scope': 5}, {'error': ['x']}, {'iat': 'x'}, {'response_type': {'a': 'b'}}, {'client_id': True, 'redirect_uris': [1]}):
            try:
                cls(**doc)
            except Exception:
                pass
            try:
                cls().from_json(json.dumps(doc))
            except Exception:
                pass
            try:
                cls().from_urlencoded('error=a&error=b&state=1&state=2')
            except Exception:
                pass

    def serialise():
        m = new()
        for f in (lambda: m.to_dict(), lambda: m.to_json(), lambda: m.to_urlencoded(), lambda: m.request('https://x'), lambda: str(m), lambda: m.serialize('dict')):
            try:
                r = f()
            except Exception:
                continue
            spoil(r)

    def verify():
        for a in (args, {}, dict(args, allow_sign_alg_none=True), dict(args, aud=['c'], skew=10, nonce='n')):
            m = new()
            verdict(m, **a)
            spoil(m)
            verdict(m, **a)

    def verify_bad():
        for a in ({'error': 'x'}, {'response_type': ['code']}, {'scope': ['openid', 'offline_access']}, {'iss': 'x'}, {'client_id': 'y'}):
            m = cls()
            m.update(copy.deepcopy(kw))
            m.update(a)
            verdict(m, **args)
            spoil(m)

    def jwt():
        m = new()
        try:
            t = m.to_jwt([key('ec_op')], 'ES256')
            spoil(cls().from_jwt(t, kj))
        except Exception:
            pass
        try:
            spoil(cls().from_jwt('x.y.z', kj))
        except Exception:
            pass

    def listing():
        m = new()
        for f in ('parameters', 'required_parameters', 'extra', 'to_dict'):
            try:
                spoil(getattr(m, f)())
            except Exception:
                pass
        for p in cls.c_param:
            m.value_type(p)
        m.only_extras()

    def edit():
        m = new()
        m.update({'zz': ['x']})
        m.rm_blanks()
        m.weed()
        m.set_defaults()
        spoil(m)
        for k in list(m):
            del m[k]
        m.set_defaults()
        spoil(m)

    def assign():
        m = new()
        for k in list(m):
            try:
                m[k] = m[k]
            except Exception:
                pass
        m['zz'] = {'a': []}
        spoil(m)
        m.clear()

    def pick_up():
        from oidcmsg import oauth2, oidc
        for mod in (oauth2, oidc):
            m = mod.factory(name.split('.')[-1], **copy.deepcopy(kw))
            if m is not None:
                spoil(m)

    def construct():
        if name.startswith('oidc.identity_assurance'):
            from oidcmsg.oidc.identity_assurance import ClaimsConstructor
            c = ClaimsConstructor(cls)
            for p in cls.c_param:
                try:
                    c[p] = {'essential': True}
                except Exception:
                    pass
            spoil(c.to_dict())

    def merge():
        from oidcmsg.message import add_non_standard
        a, b = new(), new()
        b['zz'] = 'x'
        add_non_standard(a, b)
        spoil(a)
        spoil(b)

    def request_objects():
        if not hasattr(cls, 'merge'):
            return
        for t in ('strict', 'lax', 'whitelist'):
            m = new()
            try:
                m.merge(copy.deepcopy(kw), t, ['client_id'])
            except Exception:
                pass
            spoil(m)

    return [('defaults', lambda: spoil(cls())), ('twice', lambda: (spoil(cls()), spoil(cls()))), ('bare', lambda: spoil(cls(set_defaults=False))), ('filled', lambda: spoil(new())),
            ('set_defaults', lambda: (lambda m: (m.set_defaults(), spoil(m)))(cls(set_defaults=False))), ('copy', lambda: spoil(new().copy())), ('copy of default', lambda: spoil(cls().copy())),
            ('parsed', parsed), ('form', form), ('read again', again), ('bad input', bad), ('serialise', serialise), ('verify', verify), ('verify bad', verify_bad), ('jwt', jwt), ('listing', listing), ('edit', edit),
            ('assign', assign), ('factory', pick_up), ('constructor', construct), ('merge', merge), ('request object', request_objects)]


class Probes:
    """bystanders and questions whose answers must never change"""

    def __init__(self, cs, kj):
        self.cs, self.kj = cs, kj
        self.bystanders = []
        self.questions = []
        for n, c in sorted(cs.items()):
            self.bystanders.append((n, c()))
            for kw in fillings(n, c)[1:]:
                self.bystanders.append((n, c(**copy.deepcopy(kw))))
                self.questions.append((n, kw, {'keyjar': kj, 'iss': OP, 'client_id': 'c'}))
                if kw:
                    k = sorted(kw)[0]
                    self.questions.append((n, {x: v for x, v in kw.items() if x != k}, {'keyjar': kj, 'iss': OP, 'client_id': 'c'}))
            for a in rules()[n]['allowed']:
                base = fillings(n, c)[1]
                for v in ('spoiled', 'invalid_request', 'none', 'code'):
                    self.questions.append((n, dict(base, **{a: [v] if rules()[n]['params'][a][0] == 'list' else v}), {}))

    @property
    def named(self):
        return sorted({n.split('.')[-1] for n in self.cs if n.split('.')[0] in ('oauth2', 'oidc') and n.count('.') == 1})

    def seen(self):
        return [(n, alpha.plain(m)) for n, m in self.bystanders]

    def fresh(self):
        from oidcmsg import oauth2, oidc
        res = [(n, c().to_dict(), c(set_defaults=False).to_dict()) for n, c in self.cs.items()]
        for n in self.named:
            for mod in (oauth2, oidc):
                for kw in ({}, {'x': 'y'}):
                    m, o = mod.factory(n, **kw), mod.factory(n, **kw)
                    res.append((n, mod.__name__, 'by name', None if m is None else m.to_dict(), m is o and m is not None))
        return res

    def answers(self):
        res = []
        for n, kw, args in self.questions:
            try:
                v = verdict(self.cs[n](**copy.deepcopy(kw)), **args)
            except Exception as e:
                v = repr(e)
            res.append((n, str(kw), v if v is True else str(v).split('(')[0]))
        return res


def run(ck, shard):
    if shard[0] == 'import':
        return imports(ck, shard[1])
    target.shim().clock(NOW)
    cs = {n: c for n, c in alpha.classes().items() if n in rules()}
    kj = keyjar(own=['rsa_rp'], **{OP: ['ec_op']})
    names = sorted(cs)
    if shard[1] % 2:
        names.reverse()
    if shard[1] >= 2:
        names = names[len(names) // 2:] + names[:len(names) // 2]
    part = names[shard[2] * len(names) // 12:(shard[2] + 1) * len(names) // 12]
    ref = table([n for n in names if n in rules()])
    d = difference(snapshot(cs), ref)
    ck.expect(d is None, 'rules', 'before any use: %s' % d)
    p = Probes(cs, kj)
    seen, answers, fresh = p.seen(), p.answers(), p.fresh()
    ref = snapshot(cs)
    for n in part:
        cls = cs[n]
        for i, kw in enumerate(fillings(n, cls)):
            for what, use in uses(n, cls, kw, kj):
                ck.begin((n, what, kw))
                try:
                    use()
                except Shared as e:
                    ck.fail('messages share values', '%s: %s' % (n, e))
                except Exception as e:
                    if what in ('verify', 'verify bad', 'bad input') or not kw:
                        pass
                    else:
                        ck.fail('use %s' % what, 'using %s: %r' % (n, e))
                ck.case((n, what, i, shard[1]), what)
                for name, now, before in (('rules', snapshot(cs), ref),):
                    d = difference(now, before)
                    if not ck.expect(d is None, 'rules changed by %s' % what, 'after %s of %s: %s' % (what, n, d)):
                        ref = now
                now = p.seen()
                if now != seen:
                    bad = [x for x in zip(now, seen) if x[0] != x[1]][0]
                    ck.fail('bystander changed by %s' % what, 'after %s of %s: %r, before %r' % (what, n, bad[0], bad[1]))
                    seen = now
                now = p.fresh()
                ck.expect(not any(x[-1] is True for x in now), 'one message made twice', lambda: repr([x for x in now if x[-1] is True][:3]))
                if now != fresh:
                    bad = [x for x in zip(now, fresh) if x[0] != x[1]][0]
                    ck.fail('defaults changed by %s' % what, 'after %s of %s: %r, before %r' % (what, n, bad[0], bad[1]))
                    fresh = now
        now = p.answers()
        if now != answers:
            bad = [x for x in zip(now, answers) if x[0] != x[1]][0]
            ck.fail('verdict changed', 'after using %s: %r, before %r' % (n, bad[0], bad[1]))
            answers = now


# --- import orders ------------------------------------------------------------
def imports(ck, first):
    """a clean process imports nothing of the library; its children import in one order each"""
    import subprocess
    import sys
    mods = IMPORTS[:7 if ck.thorough else 6]
    orders = [(mods[first],) + o for o in itertools.permutations([m for m in mods if m != mods[first]])]
    ck.begin('import orders starting with %s' % mods[first])
    out = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys; from mc.checks import c08; c08.zygote(%r)' % (orders,)], stdout=subprocess.PIPE, timeout=3000)
    if not ck.expect(out.returncode == 0, 'import', 'status %d' % out.returncode):
        return
    for order, n, result in pickle.loads(out.stdout):
        for i, d in enumerate(result):
            ck.case(order[:i + 1], 'imported %d' % (i + 1))
            ck.expect(d is None, 'rules depend on imports', 'after importing %s: %s' % (order[:i + 1], d), order)
        ck.expect(n == len(order), 'import fails', 'order %r: %r' % (order, result))


def zygote(orders):
    import signal
    import sys
    signal.setitimer(signal.ITIMER_REAL, 0)
    target.setup()
    assert not any(m.startswith('oidcmsg') for m in sys.modules)
    res = []
    r, w = os.pipe()
    for order in orders:
        pid = os.fork()
        if pid == 0:
            try:
                out = one_order(order)
                data = pickle.dumps(out)
            except BaseException as e:
                data = pickle.dumps((order, 0, [repr(e)]))
            os.write(w, len(data).to_bytes(4, 'big') + data[:60000])
            os._exit(0)
        size = int.from_bytes(os.read(r, 4), 'big')
        data = b''
        while len(data) < size:
            data += os.read(r, size - len(data))
        os.waitpid(pid, 0)
        res.append(pickle.loads(data))
    sys.stdout.buffer.write(pickle.dumps(res))
    sys.stdout.flush()


def one_order(order):
    import importlib
    import inspect
    import sys
    out = []
    for m in order:
        importlib.import_module(m)
        from oidcmsg.message import Message
        cs = {}
        for mod in target.MODULES:
            if mod in sys.modules:
                for n, o in inspect.getmembers(sys.modules[mod]):
                    if inspect.isclass(o) and issubclass(o, Message) and o.__module__ == mod:
                        cs[mod[8:] + '.' + n] = o
        try:
            d = difference(snapshot(cs), table([n for n in cs if n in rules()]))
            for n, c in cs.items():
                if d is None and c().to_dict() != {k: v for k, v in rules()[n]['default'].items()}:
                    d = 'defaults of %s: %r' % (n, c().to_dict())
        except Exception as e:
            d = repr(e)
        out.append(d)
    return (order, len(out), out)
