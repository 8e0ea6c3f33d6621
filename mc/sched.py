"""Controlled execution of several real processes: every system call on the scratch directory (see shim.c) asks here first.

A *program* is a list of processes, a process a list of named operations. Pool.execute() runs one program under one schedule and
returns what happened; explore() enumerates every schedule with at most `bound` preemptions (a preemption: switching away from a
process that could have gone on; processes that wait for a lock or sleep are only woken after another one made a step)."""
import os
import pickle
import select
import signal
import struct

GO, KILL, TORN, FAIL = 0, 1, 2, 3


class Broken(Exception):
    """the harness (not the code under test) failed"""


class Event:
    """something a process did; `no` is its place in the global order"""
    __slots__ = ('no', 'proc', 'kind', 'op', 'result', 'path', 'arg')

    def __init__(self, no, proc, kind, op=None, result=None, path=None, arg=None):
        self.no, self.proc, self.kind, self.op, self.result, self.path, self.arg = no, proc, kind, op, result, path, arg

    def __repr__(self):
        return '%d:p%d %s %s%s' % (self.no, self.proc, self.kind, self.path if self.op is None else self.op, '' if self.result is None else ' -> %r' % (self.result,))


class Trace:
    def __init__(self):
        self.choices = []     # process per step
        self.options = []     # enabled processes per step
        self.points = []      # (process, call, argument, path) per step
        self.events = []      # begin / end of operations, deaths
        self.problem = None   # deadlock, hang or a crash of the interpreter
        self.killed = None


class _Child:
    def __init__(self, no, pid, req, rep):
        self.no, self.pid, self.req, self.rep = no, pid, req, rep
        self.buf = b''
        self.pending = None      # (call, argument, path)
        self.state = 'running'   # point, sleep, done, dead
        self.asleep_since = None
        self.reaped = False

    def reap(self):
        """only when it is gone completely all its descriptors (and locks) are"""
        if not self.reaped:
            self.reaped = True
            os.waitpid(self.pid, 0)


def _read(fd, n):
    got = b''
    while len(got) < n:
        b = os.read(fd, n - len(got))
        if not b:
            os._exit(97)
        got += b
    return got


def _child_main(sh, apply, make, req, rep):
    """serve: make a state, apply operations to it, freely or under the controller's schedule"""
    def say(*parts):
        os.write(req, ('\t'.join(parts) + '\n').encode())

    def hexed(x):
        return pickle.dumps(x).hex()

    state = None
    while True:
        size = struct.unpack('q', _read(rep, 8))[0]
        cmd, arg = pickle.loads(_read(rep, size))
        if cmd == 'make':
            state = make(arg)
            say('did', '0', '')
        elif cmd == 'do':
            say('did', '0', hexed(apply(state, arg)))
        elif cmd == 'run':
            sh.sched(req, rep)
            for n, op in enumerate(arg):
                say('begin', str(n), '')
                if struct.unpack('ii', _read(rep, 8))[0] != GO:
                    os.kill(os.getpid(), signal.SIGKILL)
                res = apply(state, op)
                say('ret', str(n), hexed(res))
            sh.sched(-1, -1)
            say('done', '0', '')


def pin(no):
    """one processor for this process and its children: handing over is much faster"""
    cpus = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {cpus[no % len(cpus)]})


class Pool:
    """processes that carry out operations; they are reused from one schedule to the next and replaced when they died"""

    def __init__(self, sh, n, apply, make, invisible=lambda call, path: False, merge=True):
        self.sh, self.n, self.apply, self.make, self.invisible, self.merge = sh, n, apply, make, invisible, merge
        self.kids = [None] * n
        self.forks = 0

    def kid(self, n):
        if self.kids[n] is None:
            self.kids[n] = self._fork(n)
        return self.kids[n]

    def _fork(self, n):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        others = [fd for k in self.kids if k is not None for fd in (k.req, k.rep)]
        self.forks += 1
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                for fd in others + [r1, w2]:
                    os.close(fd)
                _child_main(self.sh, self.apply, self.make, w1, r2)
            except BaseException:
                import traceback
                os.write(w1, ('crash\t0\t%s\n' % traceback.format_exc().encode().hex()).encode())
            finally:
                os._exit(3)
        os.close(w1)
        os.close(r2)
        return _Child(n, pid, r1, w2)

    def drop(self, n):
        k = self.kids[n]
        if k is None:
            return
        self.kids[n] = None
        for fd in (k.req, k.rep):
            os.close(fd)
        if not k.reaped:
            os.kill(k.pid, signal.SIGKILL)
            k.reap()

    def close(self):
        for n in range(self.n):
            self.drop(n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def command(self, n, cmd, arg):
        data = pickle.dumps((cmd, arg))
        os.write(self.kid(n).rep, struct.pack('q', len(data)) + data)

    def ask(self, n, cmd, arg, timeout=30):
        self.command(n, cmd, arg)
        k = self.kids[n]
        line = _next_line(k, timeout)
        if not line:
            self.drop(n)
            return ('raised', 'the process %s' % ('hangs' if line is None else 'died'))
        call, _, res = line.decode().split('\t', 2)
        if call == 'crash':
            self.drop(n)
            return ('raised', bytes.fromhex(res).decode())
        return pickle.loads(bytes.fromhex(res)) if res else None

    def execute(self, procs, decide, timeout=20.0, max_steps=3000):
        """procs: operations per process; decide(step, enabled, current, kids) returns (process, action, value)"""
        tr = Trace()
        for n, ops in enumerate(procs):
            self.command(n, 'run', ops)
        kids = self.kids[:len(procs)]
        for k in kids:
            k.state, k.pending, k.asleep_since = 'running', None, 0
        try:
            _drive(tr, kids, decide, timeout, max_steps, procs, self.invisible, self.merge)
        except BaseException:
            self.close()
            raise
        if tr.problem:
            self.close()
        else:
            for k in kids:
                if k.state == 'dead':
                    self.drop(k.no)
        return tr


def _next_line(k, timeout):
    second = False      # the machine may have been suspended: only two silent periods in a row count
    while b'\n' not in k.buf:
        r, _, _ = select.select([k.req], [], [], timeout)
        if not r:
            if second:
                return None
            second = True
            continue
        b = os.read(k.req, 65536)
        if not b:
            return b''
        k.buf += b
    line, k.buf = k.buf.split(b'\n', 1)
    return line


def _advance(tr, k, timeout, progress, procs):
    """read what process k says until it waits at a point"""
    while True:
        line = _next_line(k, timeout)
        if line is None:
            tr.problem = 'process %d does not come back from %r' % (k.no, k.pending)
            k.state = 'dead'
            return
        if line == b'':
            k.reap()
            k.state = 'dead'
            tr.events.append(Event(progress, k.no, 'died'))
            return
        call, arg, path = line.decode('utf-8', 'surrogateescape').split('\t', 2)
        if call == 'ret':
            n = int(arg)
            tr.events.append(Event(progress, k.no, 'end', procs[k.no][n], pickle.loads(bytes.fromhex(path))))
            continue
        if call == 'crash':
            tr.problem = 'process %d: %s' % (k.no, bytes.fromhex(path).decode())
            k.state = 'dead'
            return
        k.pending = (call, int(arg), path)
        k.state = 'sleep' if call == 'sleep' else 'done' if call == 'done' else 'point'
        if k.state == 'sleep':
            k.asleep_since = 0
        return


def _grant(k, act=GO, val=0):
    os.write(k.rep, struct.pack('ii', act, val))


CHANGES = ('write', 'ftruncate', 'truncate', 'unlink', 'rename', 'link', 'mkdir', 'utime', 'open-trunc', 'unlock')


def _drive(tr, kids, decide, timeout, max_steps, procs, invisible, merge):
    """a sleeping process (waiting for a lock, or for time to pass) is woken up after something changed or an operation ended;
    when all are asleep they get a second chance before this counts as a deadlock"""
    changes = 0
    grace = 2
    for k in kids:
        _advance(tr, k, timeout, 0, procs)
    current = None
    while tr.problem is None:
        alive = [k for k in kids if k.state in ('point', 'sleep')]
        if not alive:
            break
        enabled = [k.no for k in alive if k.state == 'point' or changes > k.asleep_since]
        if not enabled:
            if grace:
                grace -= 1
                changes += 1
                continue
            tr.problem = 'deadlock: %s' % ', '.join('process %d waits (%s)' % (k.no, k.pending[2] or 'sleeping') for k in alive)
            break
        step = len(tr.choices)
        if step > max_steps:
            tr.problem = 'no end after %d steps' % step
            break
        who, act, val = decide(step, enabled, current, kids)
        if who not in enabled:
            raise Broken('replay diverged at step %d: %d not in %r' % (step, who, enabled))
        k = kids[who]
        tr.choices.append(who)
        tr.options.append(enabled)
        tr.points.append((who,) + k.pending)
        if k.pending[0] == 'begin':
            tr.events.append(Event(step, who, 'begin', procs[who][k.pending[1]]))
        if act in (KILL, TORN):
            tr.killed = (who, step)
        began = k.pending[0] == 'begin'
        changed = k.pending[0] in CHANGES or act != GO
        events = len(tr.events)
        k.state = 'running'
        _grant(k, act, val)
        _advance(tr, k, timeout, step, procs)
        # the beginning of an operation is one step with its first system call; some calls no other process can notice
        while tr.problem is None and k.state == 'point' and k.pending[0] != 'begin':
            if not invisible(k.pending[0], k.pending[2]):
                if not (began and merge):
                    break
                began = False
                tr.points[-1] = (who,) + k.pending
                changed = changed or k.pending[0] in CHANGES
            k.state = 'running'
            _grant(k)
            _advance(tr, k, timeout, step, procs)
        if changed or len(tr.events) > events:
            changes += 1
            grace = 2
        if k.state == 'sleep':
            k.asleep_since = changes
        current = who if k.state == 'point' else None


def explore(run, bound, limit=None):
    """run(decide) executes the program once and returns its Trace; yields every trace with at most `bound` preemptions"""
    stack = [((), 0)]
    while stack:
        prefix, used = stack.pop()
        state = {}

        def decide(step, enabled, current, kids):
            if step < len(prefix):
                return prefix[step], GO, 0
            return (current if current in enabled else enabled[0]), GO, 0

        tr = run(decide)
        if tuple(tr.choices[:len(prefix)]) != tuple(prefix):
            raise Broken('replay diverged: %r instead of %r' % (tr.choices[:len(prefix)], prefix))
        cost = used
        more = []
        prev = None
        for step, who in enumerate(tr.choices):
            if step >= len(prefix):
                for alt in tr.options[step]:
                    if alt == who:
                        continue
                    c = cost + (1 if prev is not None and prev in tr.options[step] and alt != prev and _runs_on(tr, step, prev) else 0)
                    if c <= bound:
                        more.append((tuple(tr.choices[:step]) + (alt,), c))
            prev = who
        stack.extend(reversed(more))
        yield tr


def _runs_on(tr, step, prev):
    """would process prev have gone on at this step (it is not waiting)?"""
    return not (tr.points[step][0] == prev and tr.points[step][1] == 'sleep')
