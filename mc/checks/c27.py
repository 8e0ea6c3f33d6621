"""Crash and fault enumeration on the real file store: a real process carries out short histories and is killed before every system
call it makes on the directory and inside every write (nothing, the first byte, half, all but one byte, everything written); or the
disk is full from that call on, for that call only or for the whole operation. A second process is idle with an old cache or busy
with an operation of its own (all schedules up to a preemption bound). Afterwards the survivor and a new store have to be able to do
everything, agree with each other and with a history in which the interrupted operation happened completely or not at all."""
import errno
import itertools
import os
import shutil

from mc import core, filestore, lin, sched, target

TECHNIQUE = 'exhaustive enumeration of crash points, torn writes and write faults of real processes, checked against all histories a dictionary allows'
LEVEL = 'model_checking'
BOUNDS = {'quick': 'all histories of 1 of 10 operations and 25 pairs of changing operations x 3 starting points x every system call x (kill, 6 kinds of torn writes, disk full once or '
                   'for the rest of the operation) x 3 ways to recover; 24 pairs of concurrent operations, 1 preemption, every kill point',
          'thorough': 'the same with 2 crashes in a row (the second during recovery), 2 preemptions in concurrent histories'}
FLOOR = {'quick': 20000, 'thorough': 200000}
ASSUMPTIONS = ['a crash kills the process, not the machine: what was handed to the kernel stays',
               'file times are distinct (logical time stamps)']

A = 'é' * 9000 + '\nend of Aé'
B = 'short B'
C = 'after recovery'
OLD, OLDER, LV = 'old value', 'older', 'the value of l'
K, L, N = 'https://op/k', 'l', 'new'
CHANGE = [('set', K, A), ('set', K, B), ('del', K), ('update', ((K, A), (N, B))), ('clear',)]
READ = [('get', K), ('in', K), ('keys',), ('items',), ('open',)]
START = ('nothing', 'present', 'stale')
CLOSING = [('get', K), ('get', L), ('get', N), ('keys',), ('items',), ('len',), ('in', K)]
RECOVER = [
    [],
    [('set', K, C), ('get', K), ('keys',)],
    [('del', K), ('in', K), ('set', N, C), ('items',)],
]
PAIRS = [(a, b) for a in CHANGE[:1] + CHANGE[2:] for b in (('set', K, B), ('del', K), ('getitem', K), ('keys',), ('items',), ('clear',))]
FAULTS = ('write', 'open-trunc', 'open-creat', 'rename', 'ftruncate', 'link', 'mkdir', 'fsync', 'unlink')


def programs():
    res = [[op] for op in CHANGE + READ]
    res += [[a, b] for a, b in itertools.product(CHANGE, repeat=2)]
    return res


def shards(tier):
    n = len(programs())
    return [('pair', p) for p in range(len(PAIRS))] + [('solo', p, st) for st in START for p in range(n)]


def run(ck, shard):
    sched.pin(ck.shard_no)
    sh = target.shim()
    with target.Scratch() as base:
        sh.root(base)
        sh.mtime(True)
        with sched.Pool(sh, 2, filestore.apply, filestore.make, invisible, merge=False) as pool:
            w = World(ck, pool, base)
            if shard[0] == 'solo':
                solo(w, programs()[shard[1]], shard[2])
            else:
                for st in ('present', 'stale'):
                    pair(w, PAIRS[shard[1]], st)
        sh.mtime(False)
        sh.root('')


def invisible(call, path):
    return call in ('stat', 'mkdir') and path.count('/') == 1


class World:
    def __init__(self, ck, pool, base):
        self.ck, self.pool, self.base = ck, pool, base
        self.n = 0
        self.dir = None

    def fresh(self, start):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.n += 1
        self.dir = d = os.path.join(self.base, '%d' % self.n)
        pool = self.pool
        for p in (0, 1):
            pool.ask(p, 'make', d)
        if start == 'nothing':
            todo = [(0, ('open',)), (1, ('open',)), (0, ('set', L, LV))]
        elif start == 'present':
            todo = [(0, ('open',)), (0, ('set', L, LV)), (0, ('set', K, OLD)), (1, ('open',))]
        else:
            todo = [(0, ('open',)), (1, ('open',)), (0, ('set', K, OLDER)), (0, ('set', L, LV)), (1, ('get', K)), (1, ('get', L))]
        for p, op in todo:
            res = pool.ask(p, 'do', op)
            if isinstance(res, tuple) and res[:1] == ('raised',):
                self.ck.fail('preparation', '%r: %s' % (op, res[1]))
                raise core.StopShard()
        if start == 'stale':
            filestore.open_store(d)[K] = OLD
        return {L: LV} if start == 'nothing' else {K: OLD, L: LV}

    def finish(self, procs, start, init, tr, recover, extra=(), faulted=()):
        """the interrupted history, what the survivors do and see, and a verdict"""
        ck, pool = self.ck, self.pool
        ck.step(len(tr.choices))
        ck.trace()
        name = '%s%s' % (' | '.join('; '.join(op[0] for op in p) for p in procs), '' if not faulted else ' (disk full)')
        where = (start, text(procs), tr.killed, [(p, c, os.path.basename(f)) for p, c, _, f in tr.points][-30:], recover, extra)
        if tr.problem:
            ck.stuck('%s: stuck' % name, tr.problem, where)
            return
        after = list(extra)
        for op in RECOVER[recover]:
            after.append((op, pool.ask(1, 'do', op, 30)))
        for op in CLOSING:
            after.append((op, pool.ask(1, 'do', op, 30)))
        new = filestore.Slot(self.dir)
        after += [(op, filestore.apply(new, op)) for op in CLOSING]
        alive = tr.killed is None
        if alive:      # the process whose disk was full goes on as well
            after += [(op, pool.ask(0, 'do', op, 30)) for op in CLOSING + [('set', K, B), ('get', K)]]
            after += [(op, pool.ask(1, 'do', op, 30)) for op in CLOSING]
        hist = []
        for b, e, op, ans in filestore.history(tr, after):
            if e is not None and b in faulted and isinstance(ans, tuple) and ans[:1] == ('raised',):
                ans = ('faulted', ans[1])
            hist.append((b, e, op, ans))
        bad = lin.split([K, L, N], hist, init)
        if bad:
            ck.fail('%s: %s' % (name, bad.split(':')[0].split(' key')[0]), bad, where)
        if any('hangs' in str(a) for _, a in after):
            raise core.StopShard()
        ck.state((text(procs), start, sorted(short(repr(h)) for h in hist)))
        ck.outcome(repr([short(a) for _, a in after][:4]))
        ck.step(len(after))


def actions(call, arg):
    yield sched.KILL, 0
    if call == 'write':
        for n in sorted({1, arg // 2, arg // 2 + 1, arg - 1, arg}):
            if 0 < n <= arg:
                yield sched.TORN, n


def solo(w, ops, start):
    ck = w.ck
    ck.begin((text([ops]), start))
    init = w.fresh(start)

    def plain(step, enabled, current, kids):
        return enabled[0], sched.GO, 0

    tr = w.pool.execute([ops], plain)
    if tr.problem:
        ck.stuck('%s: stuck' % ops[0][0], tr.problem)
        return
    points = list(tr.points)
    ck.count('histories')
    ck.count('points', sum(1 for p in points if p[1] != 'begin'))
    for i, (_, call, arg, path) in enumerate(points):
        if call == 'begin':
            continue
        todo = [(act, val, 1) for act, val in actions(call, arg)]
        inop = max(j for j in range(i + 1) if points[j][1] == 'begin')
        if call in FAULTS and ops[points[inop][2]] in CHANGE:
            todo += [(sched.FAIL, errno.ENOSPC, False), (sched.FAIL, errno.ENOSPC, True)]
        for act, val, sticky in todo:
            for rec in range(len(RECOVER)):
                again = [None]
                if ck.thorough and act != sched.FAIL and RECOVER[rec]:
                    again = [None] + list(range(40))
                for second in again:
                    if not interrupted(w, ops, start, points, i, act, val, sticky, rec, second):
                        break
    ck.sample('%s from %s: interrupted at %d points' % (text([ops]), start, sum(1 for p in points if p[1] != 'begin')))


def interrupted(w, ops, start, points, i, act, val, sticky, rec, second):
    """one execution with a crash or fault at point i; `second`: the survivor is killed at its n-th call, too (False if it made fewer)"""
    ck = w.ck
    call = points[i][1]
    ck.begin((text([ops]), start, i, points[i][1:], act, val, sticky, rec, second))
    init = w.fresh(start)
    box = {}

    def decide(step, enabled, current, kids):
        k = kids[0]
        if step == i:
            if k.pending[0] != call:
                raise sched.Broken('point %d is %r instead of %r' % (i, k.pending, points[i][1:]))
            return 0, act, val
        if act == sched.FAIL and sticky and step > i and 'over' not in box:
            if k.pending[0] == 'begin':
                box['over'] = True
            elif k.pending[0] in FAULTS:
                return 0, act, val
        return 0, sched.GO, 0

    tr = w.pool.execute([ops], decide)
    faulted = ()
    if act == sched.FAIL:
        faulted = (max(j for j in range(i + 1) if points[j][1] == 'begin'),)
        ck.count('faults')
    else:
        ck.count('crashes')
    extra = []
    if second is not None:
        script = RECOVER[rec]
        seen = {'n': -1}

        def decide2(step, enabled, current, kids):
            if kids[0].pending[0] != 'begin':
                seen['n'] += 1
                if seen['n'] == second:
                    return enabled[0], sched.KILL, 0
            return enabled[0], sched.GO, 0

        w.pool.kids.reverse()      # the survivor is the only process that runs now
        _renumber(w.pool)
        tr2 = w.pool.execute([script], decide2)
        w.pool.kids.reverse()
        _renumber(w.pool)
        if tr2.killed is None:
            return False
        ck.count('double crashes')
        if tr2.problem:
            ck.stuck('%s: stuck in recovery' % ops[0][0], tr2.problem)
            return True
        tr = joined(tr, tr2)
        w.pool.ask(1, 'make', w.dir)
        rec = 0
    w.finish([ops], start, init, tr, rec, extra, faulted)
    return True


def _renumber(pool):
    for n, k in enumerate(pool.kids):
        if k is not None:
            k.no = n


def joined(a, b):
    """history b after history a, in other processes"""
    n = len(a.choices) + 1
    res = sched.Trace()
    res.choices = a.choices + [9] + [c + 10 for c in b.choices]
    res.points = a.points + b.points
    res.killed = a.killed
    res.events = a.events + [sched.Event(e.no + n, e.proc + 10, e.kind, e.op, e.result) for e in b.events]
    return res


def pair(w, ops, start):
    """process 0 is killed at every point of every schedule of two concurrent operations"""
    ck = w.ck
    procs = [[ops[0]], [ops[1]]]
    box = {}

    def once(decide):
        ck.begin((text(procs), start))
        box['init'] = w.fresh(start)
        return w.pool.execute(procs, decide)

    seen = set()
    for tr in sched.explore(once, 2 if ck.thorough else 1):
        if tr.problem:
            ck.stuck('%s | %s: stuck' % (ops[0][0], ops[1][0]), tr.problem)
            continue
        ck.count('schedules')
        for i, (who, call, arg, path) in enumerate(tr.points):
            if who != 0 or call == 'begin':
                continue
            prefix = tuple(tr.choices[:i])
            if prefix in seen:
                continue
            seen.add(prefix)
            for act, val in ((sched.KILL, 0),) + (((sched.TORN, arg // 2), (sched.TORN, arg)) if call == 'write' else ()):
                def decide(step, enabled, current, kids):
                    if step < i:
                        return prefix[step], sched.GO, 0
                    if step == i:
                        return 0, act, val
                    return enabled[0], sched.GO, 0

                t2 = once(decide)
                ck.count('crashes')
                w.finish(procs, start, box['init'], t2, (len(seen) % 2) * 1)
    ck.sample('%s from %s: killed at %d points' % (text(procs), start, len(seen)))


def short(a):
    return 'A' if a == A else [short(x) for x in a] if isinstance(a, (list, tuple)) else a


def text(procs):
    return [[tuple(short(x) for x in op) for op in p] for p in procs]
