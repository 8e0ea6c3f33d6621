"""Stateless exploration of the real SQL store: two or three processes with real store objects on one SQLite database run small
programs; every lock SQLite takes and every commit is a scheduling point (LD_PRELOAD shim), all schedules up to a number of preemptions are
executed. Each history has to be linearizable key by key, free of spurious errors, deadlocks and endless waits, and afterwards every
process and a new store have to agree with it."""
import itertools
import os
import shutil

from mc import core, filestore, lin, sched, sqlstore, target
from mc.lin import ABSENT  # noqa

TECHNIQUE = 'stateless exploration of all process interleavings at lock and commit level up to a preemption bound, with a linearizability check'
LEVEL = 'model_checking'
BOUNDS = {'quick': '2 processes: all pairs of 9 operations (at least one of them changing) x 2 starting points (absent, present), 2 preemptions; '
                   '8 programs of 2 processes with 2 operations and 4 of 3 processes, 1 preemption',
          'thorough': '4 preemptions for pairs, 3 for two operations, 2 for three processes'}
FLOOR = {'quick': 20000, 'thorough': 100000}
ASSUMPTIONS = ['the database is SQLite with its default rollback journal; processes interleave at lock and commit operations',
               'a process asleep or waiting for a lock is woken after some other process made a step']

A = 'A' * 6000 + ' end of A'      # more than one page of the database
B = 'short B'
OLD = 'old value'
LV = 'the value of l'
K, L = 'https://op/k', 'l'
OPS = [('set', K, A), ('set', K, B), ('change', K, A), ('remove', K), ('get', K), ('in', K), ('items',), ('open',), ('keys',)]
START = ('nothing', 'present')
READERS = ('get', 'in', 'items', 'keys', 'open')
LONG = [
    # (processes, starting point, quick bound, thorough bound)
    ([[('set', K, A), ('get', K)], [('set', K, B), ('get', K)]], 'present', 1, 3),
    ([[('set', K, A), ('set', K, B)], [('get', K), ('get', K)]], 'present', 1, 3),
    ([[('remove', K), ('set', K, A)], [('get', K), ('get', K)]], 'present', 1, 3),
    ([[('get', K), ('set', K, A)], [('get', K), ('set', K, B)]], 'nothing', 1, 3),
    ([[('set', K, A), ('remove', K)], [('items',), ('get', K)]], 'nothing', 1, 3),
    ([[('set', K, A), ('set', L, B)], [('items',), ('in', L)]], 'nothing', 1, 3),
    ([[('change', K, A), ('get', K)], [('remove', K), ('in', K)]], 'present', 1, 3),
    ([[('refused', K, 'set', None), ('get', K)], [('change', K, B), ('get', K)]], 'present', 1, 3),
    ([[('set', K, A)], [('set', K, B)], [('get', K)]], 'present', 1, 2),
    ([[('set', K, A)], [('remove', K)], [('change', K, B)]], 'present', 1, 2),
    ([[('remove', K)], [('remove', K)], [('set', K, A)]], 'present', 1, 2),
    ([[('set', K, A)], [('set', L, B)], [('items',)]], 'nothing', 1, 2),
]


def programs(tier):
    thorough = tier == 'thorough'
    res = []
    for a, b in itertools.combinations_with_replacement(OPS, 2):
        if a[0] in READERS and b[0] in READERS:
            continue
        for st in START:
            res.append(([[a], [b]], st, 4 if thorough else 2))
    for p, st, q, t in LONG:
        res.append((p, st, t if thorough else q))
    return res


def shards(tier):
    ps = programs(tier)
    order = sorted(range(len(ps)), key=lambda n: -sum(len(x) for x in ps[n][0]))
    return [[n] for n in order]


class World:
    """databases with the same beginning for every schedule"""

    def __init__(self, base, pool):
        self.base, self.pool, self.n = base, pool, 0
        self.dir = None
        self.start = {}
        for st in START:
            d = os.path.join(base, 't-' + st)
            os.makedirs(d)
            p = os.path.join(d, 'db')
            sqlstore.template(p)
            s = sqlstore.open_store(p)
            s.set(L, LV)
            if st == 'present':
                s.set(K, OLD)
            sqlstore.shut(s)
            with open(p, 'rb') as fp:
                self.start[st] = fp.read()
            shutil.rmtree(d)

    def fresh(self, st, n, opened=True):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.n += 1
        self.dir = os.path.join(self.base, '%d' % self.n)
        os.makedirs(self.dir)
        self.path = os.path.join(self.dir, 'db')
        with open(self.path, 'wb') as fp:
            fp.write(self.start[st])
        for p in range(n):
            self.pool.ask(p, 'make', self.path)
            if opened:
                r = self.pool.ask(p, 'do', ('open',))
                if r is not None:
                    return r[1]
        return None


def init_of(st):
    return {L: LV} if st == 'nothing' else {K: OLD, L: LV}


def run(ck, shard):
    sched.pin(ck.shard_no)
    sh = target.shim()
    ps = programs(ck.tier)
    with target.Scratch() as base:
        sh.root(base)
        with sched.Pool(sh, 3, sqlstore.apply, sqlstore.make, invisible) as pool:
            w = World(base, pool)
            for no in shard:
                one(ck, w, *ps[no])
        sh.root('')


def invisible(call, path):
    """data is only read and written while its lock is held: what others can notice are locks and the end of the journal"""
    return not (call in ('lock', 'sleep', 'unlink', 'rename'))


CLOSING = [('get', K), ('get', L), ('in', K), ('items',)]


def one(ck, w, procs, start, bound):
    name = ' | '.join('; '.join(op[0] for op in p) for p in procs)

    def once(decide):
        ck.begin((text(procs), start))
        err = w.fresh(start, len(procs))
        if err:
            ck.fail('%s: preparation' % name, err)
            raise core.StopShard()
        return w.pool.execute(procs, decide)

    outcomes = set()
    n = 0
    for tr in sched.explore(once, bound):
        n += 1
        ck.step(len(tr.choices))
        ck.trace()
        ck.state((text(procs), start, tuple(tr.choices)))
        points = [(p, c, os.path.basename(f)) for p, c, _, f in tr.points]
        if tr.problem:
            ck.stuck('%s: stuck' % name, tr.problem, (start, points))
            continue
        after = []
        for p in range(len(procs)):
            after += [(op, w.pool.ask(p, 'do', op)) for op in CLOSING]
        fresh = sqlstore.Slot(w.path)
        after += [(op, sqlstore.apply(fresh, op)) for op in CLOSING]
        sqlstore.shut(fresh.store)
        hist = filestore.history(tr, after)
        bad = lin.split([K, L], hist, init_of(start))
        if bad:
            ck.fail('%s: %s' % (name, bad.split(':')[0].split(' key')[0]), bad, (start, points))
        outcomes.add(repr([(h[2][0], short(h[3])) for h in hist[:sum(map(len, procs))]]))
    ck.count('schedules', n)
    ck.count('programs')
    ck.count('distinct histories', len(outcomes))
    for o in sorted(outcomes)[:3]:
        ck.outcome(o)
    ck.sample('%s from %s: %d schedules, outcomes %s' % (name, start, n, sorted(outcomes)[:4]))


def short(a):
    return 'A' if a == A else 'B' if a == B else [short(x) for x in a] if isinstance(a, (list, tuple)) else a


def text(procs):
    return [[tuple(short(x) if isinstance(x, str) else x for x in op) for op in p] for p in procs]
