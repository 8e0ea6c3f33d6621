"""Crash and fault enumeration on the real SQL store (SQLite): a real process carries out short histories and is killed before every
system call that changes the database or its journal and inside every write (the first byte, half, all but one byte, everything
written); or the disk is full from that call on, for that call only or for the rest of the operation. A second process with a store of its own is idle
or busy with an operation of its own (all schedules up to a preemption bound). Afterwards the survivors and a new store have to be able to
do everything and agree with a history in which the interrupted operation happened completely or not at all."""
import errno
import itertools
import os

from mc import filestore, lin, sched, sqlstore, target
from mc.checks import c33
from mc.checks.c33 import A, B, K, L, OLD, START, World, init_of, short, text  # noqa

TECHNIQUE = 'exhaustive enumeration of crash points, torn writes and write faults of real processes, checked against all histories a dictionary allows'
LEVEL = 'model_checking'
BOUNDS = {'quick': 'all histories of 1 of 7 operations and 9 pairs of changing ones x 2 starting points x every changing system call x (kill, 5 kinds of torn writes, '
                   'disk full once or for the rest of the operation) x 2-3 ways to go on; 5 pairs of concurrent operations, 1 preemption, every kill point',
          'thorough': 'all pairs of operations, 3 ways to go on; 15 pairs of concurrent operations, 2 preemptions'}
FLOOR = {'quick': 60000, 'thorough': 200000}
ASSUMPTIONS = ['the database is SQLite with its default rollback journal',
               'a crash kills the process, not the machine: what was handed to the kernel stays']

C = 'after recovery'
CHANGE = [('set', K, A), ('change', K, B), ('remove', K)]
OPS = CHANGE + [('set', K, B), ('get', K), ('items',), ('open',)]
CLOSING = [('get', K), ('get', L), ('in', K), ('items',)]
RECOVER = [
    [],
    [('set', K, C), ('get', K), ('items',)],
    [('remove', K), ('in', K), ('set', L, C), ('items',)],
]
CHANGING = ('write', 'open-creat', 'open-trunc', 'unlink', 'rename', 'ftruncate', 'truncate', 'fsync', 'link', 'mkdir')
FAULTS = ('write', 'open-creat', 'unlink', 'ftruncate', 'fsync')
PAIRS = [(CHANGE[0], ('set', K, B)), (CHANGE[0], ('get', K)), (CHANGE[0], ('items',)), (CHANGE[2], ('set', K, B)), (CHANGE[1], ('remove', K))]


def programs(tier):
    res = [[op] for op in OPS]
    res += [[a, b] for a, b in itertools.product(OPS if tier == 'thorough' else CHANGE, repeat=2)]
    return res


def pairs(tier):
    return PAIRS if tier == 'quick' else list(itertools.product(CHANGE, (('set', K, B), ('get', K), ('items',), ('remove', K), ('change', K, A))))


def shards(tier):
    n = len(programs(tier))
    res = [('pair', p, st) for p in range(len(pairs(tier))) for st in START[::-1]]
    return res + [('solo', p, st) for p in range(n - 1, -1, -1) for st in START]


def run(ck, shard):
    sched.pin(ck.shard_no)
    sh = target.shim()
    with target.Scratch() as base:
        sh.root(base)
        with sched.Pool(sh, 2, sqlstore.apply, sqlstore.make, invisible_alone if shard[0] == 'solo' else invisible_pair, merge=False) as pool:
            w = World(base, pool)
            w.ck = ck
            if shard[0] == 'solo':
                solo(w, programs(ck.tier)[shard[1]], shard[2])
            else:
                pair(w, pairs(ck.tier)[shard[1]], shard[2])
        sh.root('')


def invisible_alone(call, path):
    return call not in CHANGING + ('sleep',)


def invisible_pair(call, path):
    return call not in CHANGING + ('sleep', 'lock') or call == 'fsync'


def actions(call, arg):
    yield sched.KILL, 0
    if call == 'write':
        for n in sorted({1, arg // 2, arg // 2 + 1, arg - 1, arg}):
            if 0 < n <= arg:
                yield sched.TORN, n


def finish(w, procs, start, tr, recover, faulted=()):
    ck, pool = w.ck, w.pool
    ck.step(len(tr.choices))
    ck.trace()
    name = '%s%s' % (' | '.join('; '.join(op[0] for op in p) for p in procs), '' if not faulted else ' (disk full)')
    where = (start, text(procs), tr.killed, [(p, c, os.path.basename(f)) for p, c, _, f in tr.points][-30:], recover)
    if tr.problem:
        ck.stuck('%s: stuck' % name, tr.problem, where)
        return
    after = [(op, pool.ask(1, 'do', op, 30)) for op in RECOVER[recover] + CLOSING]
    new = sqlstore.Slot(w.path)
    after += [(op, sqlstore.apply(new, op)) for op in CLOSING]
    if new.store is not None:
        sqlstore.shut(new.store)
    if tr.killed is None:      # the process whose disk was full goes on as well
        after += [(op, pool.ask(0, 'do', op, 30)) for op in CLOSING + [('set', K, B), ('get', K)]]
        after += [(op, pool.ask(1, 'do', op, 30)) for op in CLOSING]
    hist = []
    for b, e, op, ans in filestore.history(tr, after):
        if e is not None and b in faulted and isinstance(ans, tuple) and ans[:1] == ('raised',):
            ans = ('faulted', ans[1])
        hist.append((b, e, op, ans))
    bad = lin.split([K, L], hist, init_of(start))
    if bad:
        ck.fail('%s: %s' % (name, bad.split(':')[0].split(' key')[0]), bad, where)
    ck.state((text(procs), start, [short(repr(h)) for h in hist]))
    ck.outcome(repr([short(a) for _, a in after][:4])[:200])
    ck.step(len(after))


def prepared(w, start):
    err = w.fresh(start, 2)
    if err:
        w.ck.fail('preparation', err)
        return False
    return True


def solo(w, ops, start):
    ck = w.ck
    ck.begin((text([ops]), start))
    if not prepared(w, start):
        return

    def plain(step, enabled, current, kids):
        return enabled[0], sched.GO, 0

    tr = w.pool.execute([ops], plain)
    if tr.problem:
        ck.stuck('%s: stuck' % ops[0][0], tr.problem)
        return
    points = list(tr.points)
    ck.count('histories')
    ck.count('points', sum(1 for p in points if p[1] != 'begin'))
    for i, (_, call, arg, path) in enumerate(points):
        if call == 'begin':
            continue
        inop = max(j for j in range(i + 1) if points[j][1] == 'begin')
        todo = [(act, val, False) for act, val in actions(call, arg)]
        if call in FAULTS and ops[points[inop][2]] in OPS[:4]:
            todo += [(sched.FAIL, errno.ENOSPC, False), (sched.FAIL, errno.ENOSPC, True)]
        for act, val, sticky in todo:
            for rec in range(len(RECOVER)) if ck.thorough or act != sched.TORN else (0, 1 + i % 2):
                interrupted(w, ops, start, points, i, act, val, sticky, rec, inop)
    ck.sample('%s from %s: interrupted at %d points' % (text([ops]), start, sum(1 for p in points if p[1] != 'begin')))
    if not ck.outcomes:
        ck.outcome('no changing system call')


def interrupted(w, ops, start, points, i, act, val, sticky, rec, inop):
    ck = w.ck
    call = points[i][1]
    ck.begin((text([ops]), start, i, points[i][1:], act, val, sticky, rec))
    if not prepared(w, start):
        return
    box = {}

    def decide(step, enabled, current, kids):
        k = kids[0]
        if step == i:
            if k.pending[0] != call:
                raise sched.Broken('point %d is %r instead of %r' % (i, k.pending, points[i][1:]))
            return 0, act, val
        if act == sched.FAIL and sticky and step > i and 'over' not in box:
            if k.pending[0] == 'begin':
                box['over'] = True
            elif k.pending[0] in FAULTS:
                return 0, act, val
        return 0, sched.GO, 0

    tr = w.pool.execute([ops], decide)
    ck.count('faults' if act == sched.FAIL else 'crashes')
    finish(w, [ops], start, tr, rec, (inop,) if act == sched.FAIL else ())


def pair(w, ops, start):
    """process 0 is killed at every point of every schedule of two concurrent operations"""
    ck = w.ck
    procs = [[ops[0]], [ops[1]]]

    def once(decide):
        ck.begin((text(procs), start))
        if not prepared(w, start):
            raise sched.Broken('preparation')
        return w.pool.execute(procs, decide)

    seen = set()
    for tr in sched.explore(once, 2 if ck.thorough else 1):
        if tr.problem:
            ck.stuck('%s | %s: stuck' % (ops[0][0], ops[1][0]), tr.problem)
            continue
        ck.count('schedules')
        for i, (who, call, arg, path) in enumerate(tr.points):
            if who != 0 or call not in CHANGING:
                continue
            prefix = tuple(tr.choices[:i])
            if prefix in seen:
                continue
            seen.add(prefix)
            for act, val in ((sched.KILL, 0),) + (((sched.TORN, arg // 2),) if call == 'write' and ck.thorough else ()):
                def decide(step, enabled, current, kids):
                    if step < i:
                        return prefix[step], sched.GO, 0
                    if step == i:
                        return 0, act, val
                    return enabled[0], sched.GO, 0

                t2 = once(decide)
                ck.count('crashes')
                finish(w, procs, start, t2, len(seen) % 3)
    ck.sample('%s from %s: killed at %d points' % (text(procs), start, len(seen)))
    if not ck.outcomes:
        ck.outcome('never')
