"""Stateless exploration of the real file store: two or three processes with real store objects run small programs; every system
call on the directory is a scheduling point (LD_PRELOAD shim), all schedules up to a number of preemptions are executed. Each
history has to be linearizable key by key, free of spurious errors, deadlocks and endless waits, and afterwards every process
(old caches included) and a new store have to agree with it."""
import itertools
import os
import shutil

from mc import core, filestore, lin, sched, target
from mc.lin import ABSENT  # noqa

TECHNIQUE = 'stateless exploration of all process interleavings at system-call level up to a preemption bound, with a linearizability check'
LEVEL = 'model_checking'
BOUNDS = {'quick': '2 processes: all pairs of 12 operations (at least one of them changing) x 3 starting points (nothing, present, present but cached in an old version), '
                   '3 preemptions; all pairs of 12 operations on a store whose directory does not exist yet, 2 preemptions; 9 programs of 2 processes with 2 operations and 7 of 3 processes, 2 preemptions',
          'thorough': '5 preemptions for pairs, 4 for two operations, 3 for three processes'}
FLOOR = {'quick': 100000, 'thorough': 1000000}
ASSUMPTIONS = ['processes interleave at system calls on the store directory; file times are distinct (logical time stamps)',
               'a process asleep or waiting for a lock is woken after some other process made a step']

A = 'A' * 9000 + '\nend of A'
B = 'short B'
OLD = 'old value'
OLDER = 'older'
K, L = 'https://op/k', 'l'
OPS = [('set', K, A), ('set', K, B), ('del', K), ('getitem', K), ('get', K), ('in', K), ('keys',), ('items',), ('update', ((K, B), (L, A))), ('clear',), ('len',), ('open',)]
START = ('nothing', 'present', 'stale')

LONG = [
    # (processes, starting point, quick bound, thorough bound)
    ([[('set', K, A), ('get', K)], [('set', K, B), ('get', K)]], 'stale', 2, 4),
    ([[('set', K, A), ('set', K, B)], [('get', K), ('get', K)]], 'present', 2, 4),
    ([[('del', K), ('set', K, A)], [('get', K), ('get', K)]], 'present', 2, 4),
    ([[('set', K, A), ('del', K)], [('items',), ('getitem', K)]], 'nothing', 2, 4),
    ([[('del', K), ('get', K)], [('set', K, B), ('get', K)]], 'stale', 2, 4),
    ([[('set', K, A), ('set', L, A)], [('keys',), ('get', L)]], 'nothing', 2, 4),
    ([[('set', K, A), ('in', K)], [('del', K), ('in', K)]], 'present', 2, 4),
    ([[('get', K), ('set', K, A)], [('get', K), ('set', K, B)]], 'stale', 2, 4),
    ([[('open',), ('get', K)], [('set', K, A), ('del', K)]], 'present', 2, 4),
    ([[('set', K, A)], [('set', K, B)], [('get', K)]], 'present', 2, 3),
    ([[('set', K, A)], [('del', K)], [('getitem', K)]], 'stale', 2, 3),
    ([[('set', K, A)], [('getitem', K)], [('items',)]], 'stale', 2, 3),
    ([[('del', K)], [('del', K)], [('set', K, A)]], 'present', 2, 3),
    ([[('set', K, A)], [('set', K, B)], [('del', K)]], 'nothing', 2, 3),
    ([[('clear',)], [('set', K, A)], [('keys',)]], 'stale', 2, 3),
    ([[('set', K, A)], [('set', L, B)], [('open',), ('items',)]], 'nothing', 2, 3),
]


def programs(tier):
    thorough = tier == 'thorough'
    res = []
    readers = ('getitem', 'get', 'in', 'keys', 'items', 'len', 'open')
    for a, b in itertools.combinations_with_replacement(OPS, 2):
        if a[0] in readers and b[0] in readers:
            continue      # nothing changes
        for st in START:
            res.append(([[a], [b]], st, 5 if thorough else 3))
    # nobody has used the directory yet: every process opens the store when it needs it
    for a, b in itertools.combinations_with_replacement(OPS, 2):
        res.append(([[a], [b]], 'missing', 3 if thorough else 2))
    for p, st, q, t in LONG:
        res.append((p, st, t if thorough else q))
    return res


def shards(tier):
    ps = programs(tier)
    # long programs first
    order = sorted(range(len(ps)), key=lambda n: -sum(len(x) for x in ps[n][0]))
    res = [[n] for n in order[:len(LONG)]]
    rest = order[len(LONG):]
    return res + [rest[k::40] for k in range(40)]


def prepare(pool, d, start, n):
    """fresh directory and a store object in each of the n processes"""
    for p in range(n):
        pool.ask(p, 'make', d)
    if start == 'missing':
        return None
    if start == 'nothing':
        todo = [(p, ('open',)) for p in range(n)]
    elif start == 'present':
        todo = [(0, ('open',)), (0, ('set', K, OLD))] + [(p, ('open',)) for p in range(n)]
    else:
        # process 0 has set the key and not looked since, the others have read it, then it was changed
        todo = [(p, ('open',)) for p in range(n)] + [(0, ('set', K, OLDER))] + [(p, ('get', K)) for p in range(1, n)]
    for p, op in todo:
        res = pool.ask(p, 'do', op)
        if isinstance(res, tuple) and res[:1] == ('raised',):
            return res[1]
    if start == 'stale':
        filestore.open_store(d)[K] = OLD
    return None


def run(ck, shard):
    sched.pin(ck.shard_no)
    sh = target.shim()
    ps = programs(ck.tier)
    with target.Scratch() as base:
        sh.root(base)
        sh.mtime(True)
        with sched.Pool(sh, 3, filestore.apply, filestore.make, invisible) as pool:
            for no in shard:
                procs, start, bound = ps[no]
                one(ck, pool, base, procs, start, bound)
        sh.mtime(False)
        sh.root('')


def invisible(call, path):
    """looking at and creating the store directory itself, where it is there all the time"""
    return call in ('stat', 'mkdir') and path.count('/') == 1 and not path.startswith('/missing')


def one(ck, pool, base, procs, start, bound):
    keys = [K, L]
    init = {} if start in ('nothing', 'missing') else {K: OLD}
    closing = [('getitem', K), ('keys',), ('items',), ('len',), ('get', L)]
    box = {'n': 0}
    name = ' | '.join('; '.join(op[0] for op in p) for p in procs)

    def once(decide):
        if 'dir' in box:
            shutil.rmtree(box['dir'], ignore_errors=True)
        box['n'] += 1
        box['dir'] = os.path.join(base, '%s%d' % ('missing' if start == 'missing' else '', box['n']))
        ck.begin((procs_text(procs), start))
        err = prepare(pool, box['dir'], start, len(procs))
        if err:
            ck.fail('%s: preparation' % name, err)
            raise core.StopShard()
        return pool.execute(procs, decide)

    outcomes = set()
    for tr in sched.explore(once, bound):
        ck.step(len(tr.choices))
        ck.trace()
        ck.state((name, start, tuple(tr.choices)))
        points = [(p, c, os.path.basename(f)) for p, c, _, f in tr.points]
        if tr.problem:
            ck.stuck('%s: stuck' % name, tr.problem, (start, points))
            continue
        d = box['dir']
        after = []
        for p in range(len(procs)):
            after += [(op, pool.ask(p, 'do', op)) for op in closing]
        fresh = filestore.Slot(d)
        after += [(op, filestore.apply(fresh, op)) for op in closing]
        hist = filestore.history(tr, after)
        bad = lin.split(keys, hist, init)
        if bad:
            ck.fail('%s: %s' % (name, bad.split(':')[0].split(' key')[0]), bad, (start, points))
        outcomes.add(repr([(h[2][0], short(h[3])) for h in hist[:sum(map(len, procs))]]))
    shutil.rmtree(box['dir'], ignore_errors=True)
    ck.count('schedules', box['n'])
    ck.count('programs')
    ck.count('distinct histories', len(outcomes))
    for o in sorted(outcomes)[:3]:
        ck.outcome(o)
    if start == 'stale':
        ck.sample('%s from %s: %d schedules, outcomes %s' % (name, start, box['n'], sorted(outcomes)[:4]))


def short(a):
    return 'A' if a == A else 'B' if a == B else [short(x) for x in a] if isinstance(a, (list, tuple)) else a


def procs_text(procs):
    return [[tuple(short(x) if isinstance(x, str) else x for x in op) for op in p] for p in procs]
