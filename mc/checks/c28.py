"""Breadth-first search over histories of operations on two or three stores with different labels that share one directory (or one
dictionary in memory), duplicate states merged; every answer is compared with one independent dictionary per label, and after every
new state every store (and newly opened ones) must show exactly its dictionary. Plus an exhaustive sweep: all short keys over the
characters labels are made of, all stored under all labels at the same time."""
import itertools

from mc import target
from mc.checks import c25
from mc.kit import ABSENT

TECHNIQUE = 'explicit-state search over operation histories of the real labelled stores with independent dictionaries as reference model; exhaustive key enumeration'
LEVEL = 'model_checking'
BOUNDS = {'quick': '8 sets of 2-3 labels x (directory: text, JSON; memory: shared, separate), 2-3 keys that look like labels, 2 values: all histories to depth 3-5, states merged; '
                   'all keys of <= 4 characters over "_", a, b, / and "." under 5 labels',
          'thorough': 'depth 4-8; keys of <= 6 characters'}
FLOOR = {'quick': 30000, 'thorough': 300000}

JSONC = 'oidcmsg.storage.converter.JSON'
CONFIGS = {
    # labels, keys, values, kind, depth quick/thorough
    'two': (['a', 'b'], ['', '__b__'], ['v', 'w'], 'text', 4, 6),
    'prefix': (['a', 'ab'], ['b__', 'k'], ['v', 'w'], 'text', 4, 6),
    'empty and like the other': (['a', '__a__x'], ['', 'x__'], ['v', 'w'], 'text', 4, 5),
    'urls': (['https://op/', 'https://op'], ['/', 'https://op/k'], ['v', ''], 'text', 4, 6),
    'quoted': (['a b', 'a+b', 'a%20b'], ['k', 'k.lock'], ['v', 'w'], 'text', 3, 4),
    'json': (['clients', 'sessions'], ['k', '__clients__k'], [{'a': 1}, None], 'json', 4, 6),
    'json falsy': (['A', 'a'], ['k', ''], [0, []], 'json', 4, 6),
    'three': (['a', 'b', 'c'], ['k', '__a__k'], ['v'], 'text', 3, 5),
    'memory': (['a', 'b'], ['', '__b__'], ['v', None], 'shared', 5, 8),
    'memory prefix': (['a', 'ab', 'b'], ['k', 'b__k', 3], ['v', 0], 'shared', 4, 6),
    'memory separate': (['a', '', {'label': 'default'}], ['', '__a__k', 'k'], ['v', False], 'separate', 4, 6),
}
AMBIGUOUS = [('a', 'a_'), ('a', 'a__b')]


def shards(tier):
    res = []
    for name in CONFIGS:
        res += [('bfs', name, i) for i in range(4)]
    return res + [('keys', how, i) for how in ('text', 'shared') for i in range(4)] + [('ambiguous',)]


def ops_of(cfg):
    labels, keys, values, kind = cfg[:4]
    mem = kind in ('shared', 'separate')
    res = []
    for s in range(len(labels)):
        for k in range(len(keys)):
            res += [('set', s, k, v) for v in range(len(values))]
            res += [('del', s, k), ('getitem', s, k), ('get', s, k), ('in', s, k)]
        res += [('default', s, 0), ('keys', s), ('iter', s), ('update', s, ((0, 0), (len(keys) - 1, len(values) - 1))), ('update', s, ((0, len(values) - 1),)), ('update', s, ())]
        res += [('setm', s, 0, 0)] if mem else [('items', s), ('len', s), ('reopen', s)]
    return res


class World(c25.World):
    def __init__(self, base, cfg):
        self.labels, self.keys, self.values, self.kind = cfg[:4]
        self.models = [{} for _ in self.labels]
        self.opened = 0
        super().__init__(base, (0, self.keys, self.values, None, None, 0, 0, None))
        self.n = len(self.labels)
        self.stores = [self.open(i) for i in range(self.n)]
        if self.kind == 'shared':
            for s in self.stores:
                s.storage = self.stores[0].storage

    def open(self, i):
        from oidcmsg.storage.abfile import LabeledAbstractFileSystem
        from oidcmsg.storage.extension import LabeledDict
        if self.kind in ('shared', 'separate'):
            return LabeledDict(self.labels[i]) if self.labels[i] or i % 2 == 0 else LabeledDict()
        conf = {'fdir': self.dir}
        if self.kind == 'json':
            conf['value_conv'] = JSONC
        if i % 2:
            return LabeledAbstractFileSystem(conf, label=self.labels[i])
        return LabeledAbstractFileSystem(dict(conf, label=self.labels[i]))

    def snapshot(self):
        snap = super().snapshot()
        return None if snap is None else snap + ([dict(m) for m in self.models],)

    def restore(self, snap):
        super().restore(snap[:-1])
        self.models = [dict(m) for m in snap[-1]]

    def apply(self, op):
        what = op[0]
        s, m = self.stores[op[1]], self.models[op[1]]
        k = self.keys[op[2]] if len(op) > 2 and isinstance(op[2], int) else None
        # keys are kept as text
        mk = str(k)
        exp = None
        try:
            if what in ('set', 'setm'):
                v = self.values[op[3]]
                m[mk] = v
                if what == 'set':
                    s[k] = v
                else:
                    s.set(k, v)
            elif what == 'update':
                new = {self.keys[a]: self.values[b] for a, b in op[2]}
                m.update({str(a): b for a, b in new.items()})
                s.update(new)
            elif what == 'del':
                exp = 'done' if mk in m else 'any'
                m.pop(mk, None)
                del s[k]
                return exp, exp
            elif what == 'reopen':
                self.stores[op[1]] = self.open(op[1])
            elif what == 'getitem':
                # an absent key may be reported or give None
                return s[k], m.get(mk)
            elif what == 'get':
                return s.get(k), m.get(mk)
            elif what == 'default':
                return s.get(k, 'default'), m.get(mk, 'default')
            elif what == 'in':
                return k in s, mk in m
            elif what == 'keys':
                return sorted(s.keys()), sorted(m)
            elif what == 'items':
                return c25sorted(s.items()), c25sorted(m.items())
            elif what == 'iter':
                return c25sorted(s), c25sorted(m.items())
            elif what == 'len':
                return len(s), len(m)
            else:
                raise AssertionError(op)
            return None, None
        except KeyError as e:
            if what == 'del' and exp == 'any':
                return 'any', 'any'
            if what == 'getitem' and mk not in m:
                return None, None
            return 'KeyError(%s)' % e, 'no error'
        except AssertionError:
            raise
        except Exception as e:
            return '%s(%s)' % (type(e).__name__, e), 'no error'

    def views(self):
        """what is wrong with what the stores, and new ones, show"""
        todo = [('open', i, self.stores[i]) for i in range(self.n)]
        if self.kind in ('text', 'json'):
            todo += [('new', i, self.open(i)) for i in range(self.n)]
        for how, i, s in todo:
            m = self.models[i]
            got = (sorted(s.keys()), c25sorted(s), [s.get(k, ABSENT) for k in self.keys], [k in s for k in self.keys])
            exp = (sorted(m), c25sorted(m.items()), [m.get(str(k), ABSENT) for k in self.keys], [str(k) in m for k in self.keys])
            if hasattr(s, '__len__'):
                got += (len(s), c25sorted(s.items()))
                exp += (len(m), c25sorted(m.items()))
            if repr(got) != repr(exp):
                return '%s store with label %r shows %r, expected %r' % (how, self.labels[i], got, exp)
        return None


def c25sorted(it):
    return sorted((tuple(x) for x in it), key=repr)


def bfs(ck, base, name, part):
    cfg = CONFIGS[name]
    ops = ops_of(cfg)
    depth = cfg[5] if ck.thorough else cfg[4]
    firsts = [o for n, o in enumerate(ops) if n % 4 == part]
    seen = set()
    w = World(base, cfg)
    frontier = [((), w.snapshot())]
    for d in range(depth):
        nxt = []
        for hist, snap in frontier:
            for op in (firsts if d == 0 else ops):
                seq = hist + (op,)
                ck.begin((name, seq))
                if snap is not None:
                    w.restore(snap)
                else:
                    w = World(base, cfg)
                    for o in hist:
                        w.apply(o)
                got, exp = w.apply(op)
                ck.step()
                ck.outcome('%s %s' % (op[0], '' if got is None else type(got).__name__))
                if type(got) is not type(exp) or repr(got) != repr(exp):
                    ck.fail('%s: %s' % (name, op[0]), 'answer %r, expected %r' % (got, exp))
                    continue
                c = w.canon()
                if c in seen:
                    continue
                seen.add(c)
                ck.state((name, c))
                ck.trace()
                snap2 = w.snapshot()
                if len(seen) < 3:
                    ck.sample(ck.current)
                try:
                    bad = w.views()
                except Exception as e:
                    bad = '%s: %s' % (type(e).__name__, e)
                if ck.expect(not bad, '%s: content after %s' % (name, op[0]), bad):
                    nxt.append((seq, snap2))
        frontier = nxt
    ck.count('states at the depth bound', len(frontier))


def sweep(ck, base, kind, part):
    """all keys under all labels at the same time; then half of them deleted under one label after the other"""
    labels = ['a', 'b', 'ab', 'a/b']      # those that end with "_" are ambiguous
    texts = [''.join(t) for n in range((6 if ck.thorough else 4) + 1) for t in itertools.product('_ab/.', repeat=n)]
    mine = [k for n, k in enumerate(texts) if n % 4 == part or len(k) < 3]
    w = World(base, (labels, mine, ['v'], kind))
    for i, s in enumerate(w.stores):
        for k in mine:
            ck.begin((labels[i], k))
            s[k] = w.models[i][k] = '%d %s' % (i, k)
            ck.case(('set', labels[i], k, kind), 'set')
    ck.begin('all set')
    ck.expect(not w.views(), '%s keys: set' % kind, lambda: w.views()[:1500])
    for i, s in enumerate(w.stores):
        for n, k in enumerate(mine):
            ck.begin((labels[i], k))
            if n % len(labels) == i:
                del s[k]
                del w.models[i][k]
                ck.case(('del', labels[i], k, kind), 'deleted')
                for j, o in enumerate(w.stores):
                    if j != i:
                        ck.step()
                        ck.expect(o.get(k) == w.models[j].get(k), '%s keys: other label after deletion' % kind, lambda: 'label %r lost key %r' % (labels[j], k))
    ck.begin('some deleted')
    ck.expect(not w.views(), '%s keys: deleted' % kind, lambda: w.views()[:1500])


def ambiguous(ck, base):
    for n, (l1, l2) in enumerate(AMBIGUOUS):
        for kind in ('text', 'shared'):
            ck.begin((l1, l2, kind))
            w = World(base, ([l1, l2], ['k'], ['v'], kind))
            w.stores[1]['k'] = 'v'
            w.models[1]['k'] = 'v'
            ck.case((l1, l2, kind), 'ambiguous labels')
            ck.expect(list(w.stores[0].keys()) == [], 'ambiguous-labels:%s|%s:%s' % (l1, l2, kind),
                      lambda: 'the store with label %r lists %r, which was set under label %r' % (l1, list(w.stores[0].keys()), l2))
            ck.expect(list(w.stores[1].keys()) == ['k'] and w.stores[1].get('k') == 'v' and w.stores[0].get('k') is None, 'own keys %s|%s' % (l1, l2), 'own key not listed')


def run(ck, shard):
    sh = target.shim()
    with target.Scratch() as base:
        sh.root(base)
        sh.mtime(True)
        try:
            if shard[0] == 'keys':
                sweep(ck, base, shard[1], shard[2])
            elif shard[0] == 'ambiguous':
                ambiguous(ck, base)
            else:
                bfs(ck, base, shard[1], shard[2])
        finally:
            sh.mtime(False)
            sh.root('')
