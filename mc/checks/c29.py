"""Search over operation histories of one or two real SQL store objects on one database file. Breadth first with merged states (the
committed content of the database and everything the objects remember) until nothing new is found, and all histories without merging
to a smaller depth. After every operation the answer, what an independent connection reads from the file, what every open store
and a newly opened one say is compared with one dictionary. Plus a sweep: all short keys over the characters SQL treats specially."""
import itertools
import json
import os
import sqlite3

from mc import target
from mc.checks import c25
from mc.kit import ABSENT

TECHNIQUE = 'explicit-state search over operation histories of the real SQL store with a dictionary as reference model; exhaustive key enumeration'
LEVEL = 'model_checking'
BOUNDS = {'quick': '2 stores, 1-2 keys, 2-3 values (some look like keys), merged states, depth 4; all histories of 3 operations, unmerged; all keys of <= 2 characters over 17, 28 long keys that differ in the last character, with values up to 70000 characters',
          'thorough': 'depth 8; all histories of 4 operations; keys of <= 3 characters'}
FLOOR = {'quick': 6000, 'thorough': 60000}

CONFIGS = {
    # stores, keys, values
    'one': (1, ['a', 'A'], ['v', 'a']),
    'two': (2, ['a', 'v'], ['v', 'a', '']),
    'odd': (2, ["o'k\"; --", ''], ["v'", ';%_\n']),
    'wild': (2, ['a%', 'ab'], ['ab', '\U0001f600ä']),
}
# long ones that differ in the last character only
LONG = [('k' * (n - 1)) + c for n in (32, 64, 79, 80, 81, 100, 128, 129, 255, 256, 257, 300, 1024, 5000) for c in 'ab']
SIZES = (79, 81, 255, 256, 257, 1000, 4095, 4096, 4097, 5000, 65535, 65536, 70000)
SPECIAL = ['a', 'A', "'", '"', '%', '_', ';', '-', '\\', ' ', '\n', 'ä', '*', '?', ':', '0', '\U0001f600']


def shards(tier):
    return ([('bfs', name) for name in CONFIGS] + [('all', i) for i in range(16)] + [('keys', i) for i in range(4)])


def ops_of(cfg):
    n, keys, values = cfg
    res = []
    for s in range(n):
        for k in range(len(keys)):
            res += [(w, s, k, v) for v in range(len(values)) for w in ('set', 'update')]
            res += [('item', s, k, 0), ('del', s, k), ('get', s, k), ('in', s, k), ('null', s, k), ('nullup', s, k)]
        res += [('call', s), ('iter', s), ('str', s), ('flush', s), ('reopen', s)]
    return res


class World:
    def __init__(self, base, cfg, template):
        self.n, self.keys, self.values = cfg
        self.path = os.path.join(base, 'db.sqlite')
        for f in os.listdir(base):
            if f.startswith('db.sqlite'):
                os.unlink(os.path.join(base, f))
        with open(template, 'rb') as src, open(self.path, 'wb') as dst:
            dst.write(src.read())
        self.model = {}
        self.stores = [self.open() for _ in range(self.n)]

    def open(self):
        from oidcmsg.storage.absqlalchemy import AbstractStorageSQLAlchemy
        return AbstractStorageSQLAlchemy({'url': 'sqlite:///%s?timeout=2' % self.path, 'params': {'table': 'thing'}})

    def close(self):
        for s in self.stores:
            shut(s)
        self.stores = []

    def apply(self, op):
        what = op[0]
        s, m = self.stores[op[1]], self.model
        k = self.keys[op[2]] if len(op) > 2 else None
        v = self.values[op[3]] if len(op) > 3 else None
        try:
            if what == 'set':
                m[k] = v
                s.set(k, v)
            elif what == 'item':
                m[k] = v
                s[k] = v
            elif what == 'update':
                if k in m:
                    m[k] = v
                s.update(k, v)
            elif what == 'del':
                exp = 1 if m.pop(k, ABSENT) is not ABSENT else 0
                return s.delete(k), exp
            elif what == 'get':
                return s.get(k), m.get(k)
            elif what == 'in':
                return k in s, k in m
            elif what == 'null':
                try:
                    s.set(k, None)
                except Exception:
                    return 'error', 'error'
                return 'accepted', 'error'
            elif what == 'nullup':
                try:
                    s.update(k, None)
                except Exception:
                    return 'error', 'error'
                return 'accepted', 'error' if k in m else 'accepted'
            elif what == 'call':
                return sorted((r.owner, r.data) for r in s()), sorted(m.items())
            elif what == 'iter':
                return sorted((r.owner, r.data) for r in s), sorted(m.items())
            elif what == 'str':
                return sorted((r[1], r[2]) for r in json.loads(str(s))), sorted(m.items())
            elif what == 'flush':
                s.flush()
            elif what == 'reopen':
                shut(s)
                self.stores[op[1]] = self.open()
            return None, None
        except Exception as e:
            return '%s(%s)' % (type(e).__name__, str(e)[:300]), 'no error'

    def committed(self):
        con = sqlite3.connect(self.path, timeout=2)
        try:
            return sorted(con.execute('select owner, data from thing').fetchall())
        finally:
            con.close()

    def views(self):
        """what anybody sees now, or None if it is what it should be"""
        m = self.model
        got = self.committed()
        if got != sorted(m.items()):
            return 'the database contains %r, expected %r' % (got, m)
        new = self.open()
        try:
            con = sqlite3.connect(self.path, timeout=0.05)
            try:
                con.execute('begin immediate')
                con.rollback()
            except sqlite3.OperationalError as e:
                return 'nobody else can write to the database any more: %s' % e
            finally:
                con.close()
            for how, s in [('store %d' % i, s) for i, s in enumerate(self.stores)] + [('a new store', new)]:
                for k in self.keys:
                    a, b = s.get(k), k in s
                    if a != m.get(k) or b is not (k in m):
                        return '%s: get(%r) is %r, "in" %r, expected %r' % (how, k, a, b, m.get(k, ABSENT))
        except Exception as e:
            return '%s(%s)' % (type(e).__name__, str(e)[:300])
        finally:
            shut(new)
        return None

    def canon(self):
        hidden = []
        for s in self.stores:
            d = {k: v for k, v in vars(s).items() if not type(v).__module__.startswith('sqlalchemy')}
            sess = getattr(s, 'session', None)
            hidden.append((c25.plain(d), [bool(sess.new), bool(sess.dirty), bool(sess.deleted)] if hasattr(sess, 'dirty') else None))
        return repr((self.committed(), hidden))


def shut(s):
    """what the end of a process would do"""
    for what in (lambda: s.session.remove(), lambda: s.connection.close(), lambda: s.engine.dispose()):
        try:
            what()
        except Exception:
            pass


def template(base):
    from oidcmsg.storage.db_setup import create_database
    os.makedirs(os.path.join(base, 't'), exist_ok=True)
    p = os.path.join(base, 't', 'template.sqlite')
    create_database({'url': 'sqlite:///' + p})
    return p


def one(ck, w, name, op):
    got, exp = w.apply(op)
    ck.step()
    ck.outcome('%s %s' % (op[0], got if isinstance(got, (int, str)) and op[0] != 'get' else type(got).__name__))
    return ck.expect(type(got) is type(exp) and got == exp, '%s: %s' % (name, op[0]), lambda: 'answer %r, expected %r' % (got, exp))


def bfs(ck, base, name):
    cfg = CONFIGS[name]
    t = template(base)
    ops = ops_of(cfg)
    seen = set()
    frontier = [()]
    for d in range(8 if ck.thorough else 4):
        nxt = []
        for hist in frontier:
            for op in ops:
                ck.begin((name, hist + (op,)))
                w = World(base, cfg, t)
                for o in hist:
                    w.apply(o)
                if one(ck, w, name, op):
                    bad = w.views()
                    if ck.expect(not bad, '%s: after %s' % (name, op[0]), bad):
                        c = w.canon()
                        if c not in seen:
                            seen.add(c)
                            ck.state((name, c))
                            nxt.append(hist + (op,))
                            ck.sample(ck.current)
                    ck.trace()
                w.close()
        frontier = nxt
    ck.count('states at the depth bound', len(frontier))


def everything(ck, base, part):
    """no merging of states"""
    cfg = (2, ['a'], ['v', 'a'])
    t = template(base)
    ops = []
    for s in range(2):
        ops += [('set', s, 0, 0), ('set', s, 0, 1), ('update', s, 0, 0), ('del', s, 0), ('get', s, 0), ('in', s, 0), ('null', s, 0), ('nullup', s, 0)]
    ops.append(('reopen', 0))
    for n, hist in enumerate(itertools.product(ops, repeat=4 if ck.thorough else 3)):
        if n % 16 != part:
            continue
        ck.begin(hist)
        w = World(base, cfg, t)
        if all(one(ck, w, 'history', op) for op in hist):
            bad = w.views()
            ck.expect(not bad, 'history: after %s' % hist[-1][0], bad)
        ck.trace()
        ck.state(hist)
        w.close()


def sweep(ck, base, part):
    texts = [''.join(t) for n in range((3 if ck.thorough else 2) + 1) for t in itertools.product(SPECIAL, repeat=n)]
    mine = [k for n, k in enumerate(texts) if n % 4 == part or len(k) < 2] + LONG
    w = World(base, (2, mine, []), template(base))
    a, b = w.stores
    for n, k in enumerate(mine):
        ck.begin(('set', k))
        v = 'value %d' % n
        if k in LONG:
            v = 'ä' * SIZES[n % len(SIZES)] + v
        (a if n % 2 else b).set(k, v)
        w.model[k] = v
        ck.case(('set', k), 'set')
    ck.begin('all set')
    bad = w.views()
    ck.expect(not bad, 'keys: set', bad)
    for n, k in enumerate(mine):
        ck.begin(('change', k))
        if n % 3 == 0:
            ck.expect(b.delete(k) == 1, 'keys: delete', 'deleting %r did not delete one entry' % k)
            del w.model[k]
        elif n % 3 == 1:
            v = 'new %d' % n
            if k in LONG:
                v = 'z' * SIZES[n % len(SIZES)] + v
            a.update(k, v)
            w.model[k] = v
        ck.case(('change', k), 'changed')
    ck.begin('changed')
    bad = w.views()
    ck.expect(not bad, 'keys: changed', bad)
    for n, k in enumerate(mine):
        if n % 3 == 0:
            ck.begin(('update absent', k))
            a.update(k, 'absent')
    bad = w.views()
    ck.expect(not bad, 'keys: update of absent keys', bad)
    w.close()


def run(ck, shard):
    with target.Scratch() as base:
        if shard[0] == 'bfs':
            bfs(ck, base, shard[1])
        elif shard[0] == 'all':
            everything(ck, base, shard[1])
        else:
            sweep(ck, base, shard[1])
