"""Common machinery of all checks: bookkeeping, sharding, verdicts, evidence.

A check module ``mc.checks.cXX`` defines

    TECHNIQUE, LEVEL            strings
    shards(tier) -> list        the finite space, cut into independent pieces
    run(ck, shard)              explore one piece completely
    FLOOR = {tier: n}           (optional) minimal number of transitions; fewer
                                means the exploration was cut short

Everything is enumerated in a fixed order; VERIF_SEED only rotates the order in
which the pieces are handed to the worker processes.
"""
import hashlib
import json
import os
import pickle
import re
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
HANG_S = int(os.environ.get('MC_HANG_S', '60'))
MAX_SIGS = 12


class Hang(BaseException):
    pass


class StopShard(BaseException):
    pass


class Unfinished(Exception):
    """no verdict"""


def h64(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big')


def _slug(s):
    return re.sub(r'[^A-Za-z0-9_.=-]+', '_', s)[:80]


CURRENT = None


def note_op():
    """the library carried out one operation of the execution being explored"""
    if CURRENT is not None:
        CURRENT.pending += 1


class Check:
    """Collects what one piece of the exploration did."""

    def __init__(self, prop, tier, shard_no=0):
        self.prop, self.tier, self.shard_no = prop, tier, shard_no
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.violations = {}     # sig -> dict
        self.n_violations = 0
        self.extra = {}          # additive counters
        self.current = None
        self.late = self
        self.pending = 0         # library operations since the last complete execution
        global CURRENT
        CURRENT = self

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- bookkeeping
    def begin(self, case):
        """Name the case that is explored next (shown if it hangs or blows up)."""
        self.current = case
        signal.setitimer(signal.ITIMER_REAL, HANG_S)

    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, o):
        o = str(o)
        self.outcomes[o] = self.outcomes.get(o, 0) + 1

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, what, cap=2):
        if len(self.samples) < cap:
            self.samples.append(str(what)[:600])

    def case(self, key, outcome=None):
        """One complete execution. The library operations it consisted of have been noted with note_op()"""
        self.state(key)
        self.transitions += max(1, self.pending)
        self.pending = 0
        self.traces += 1
        if not self.samples:
            self.sample('%s -> %s' % (self.current if self.current is not None else key, outcome))
        if outcome is not None:
            self.outcome(outcome)

    def stuck(self, sig, what, case=None):
        """an execution that did not end; waiting for more of them would take too long"""
        self.fail(sig, what, case)
        if 'come back' in str(what):
            raise StopShard()

    def fail(self, sig, what, case=None):
        self.n_violations += 1
        if sig not in self.violations and len(self.violations) < 200:
            self.violations[sig] = {'sig': sig, 'what': str(what)[:2000],
                                    'case': str(case if case is not None else self.current)[:8000],
                                    'shard': self.shard_no}

    def expect(self, ok, sig, what, case=None):
        if not ok:
            self.fail(sig, what() if callable(what) else what, case)
        return ok

    def dump(self):
        return {'states': list(self.states), 'transitions': self.transitions,
                'traces': self.traces, 'outcomes': self.outcomes,
                'samples': self.samples, 'violations': self.violations,
                'n_violations': self.n_violations, 'extra': self.extra}


# ---------------------------------------------------------------------------
def _on_alarm(signum, frame):
    # the machine may have been suspended: the case gets a second period
    if CURRENT is not None and CURRENT.late is not CURRENT.current:
        CURRENT.late = CURRENT.current
        signal.setitimer(signal.ITIMER_REAL, HANG_S)
        return
    raise Hang()


def run_shard(mod, prop, tier, no, shard):
    ck = Check(prop, tier, no)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_S)
    try:
        mod.run(ck, shard)
    except StopShard:
        pass
    except Hang:
        ck.fail('no-termination', 'an operation did not come back within {} s: {}'.format(
            HANG_S, traceback.format_exc()[-1500:]))
    except Exception:
        ck.fail('unexpected-exception', traceback.format_exc()[-1800:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ck.dump()


def explore(mod, prop, tier, shards, workers):
    """Run every shard in its own forked process, `workers` at a time."""
    order = list(range(len(shards)))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if order:
        r = seed % len(order)
        order = order[r:] + order[:r]
    tmp = tempfile.mkdtemp(prefix='mc-res-')
    running, results = {}, {}
    deadline = time.monotonic() + float(os.environ.get('MC_DEADLINE_S', '800' if tier == 'quick' else '86400'))
    try:
        while order or running:
            while order and len(running) < workers:
                no = order.pop(0)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        res = run_shard(mod, prop, tier, no, shards[no])
                        with open(os.path.join(tmp, '%d.tmp' % no), 'wb') as fp:
                            pickle.dump(res, fp)
                        os.rename(os.path.join(tmp, '%d.tmp' % no), os.path.join(tmp, '%d' % no))
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = no
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.monotonic() > deadline:
                    for p in running:
                        os.kill(p, signal.SIGKILL)
                    known = known_findings(prop)
                    if any(sig not in known for r in results.values() for sig in r['violations']):
                        print('deadline: pieces %s not explored' % sorted(list(running.values()) + order))
                        return results
                    raise Unfinished('deadline: exploration of pieces %s not finished' % sorted(running.values()))
                time.sleep(0.005)
                continue
            if pid not in running:
                continue
            no = running.pop(pid)
            path = os.path.join(tmp, '%d' % no)
            if os.path.exists(path):
                with open(path, 'rb') as fp:
                    results[no] = pickle.load(fp)
                os.unlink(path)
                if os.environ.get('MC_FIRST') and results[no]['violations']:
                    del order[:]     # development aid: one violation is enough
            else:
                ck = Check(prop, tier, no)
                ck.fail('worker-died', 'the process exploring piece %d (%r) died, status %d' % (no, shards[no], st))
                results[no] = ck.dump()
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return results


def merge(prop, tier, results):
    ck = Check(prop, tier)
    for no in sorted(results):
        r = results[no]
        ck.states.update(r['states'])
        ck.transitions += r['transitions']
        ck.traces += r['traces']
        ck.n_violations += r['n_violations']
        for k, v in r['outcomes'].items():
            ck.outcomes[k] = ck.outcomes.get(k, 0) + v
        for k, v in r['extra'].items():
            ck.extra[k] = ck.extra.get(k, 0) + v
        for s in r['samples']:
            if len(ck.samples) < 8:
                ck.samples.append(s)
        for sig, v in r['violations'].items():
            ck.violations.setdefault(sig, v)
    return ck


def known_findings(prop):
    """lines:  finding: property=C28 sig=<signature> | text     (fixed: lines suppress nothing)"""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) sig=(\S+) \| (.*)', line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def finish(mod, prop, tier, ck, wall, n_shards, only=None):
    known = known_findings(prop)
    bad = {s: v for s, v in ck.violations.items() if s not in known}
    for sig, text in known.items():
        if sig in ck.violations:
            print('KNOWN-FINDING: property=%s %s [%s]' % (prop, text, sig))
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for n, (sig, v) in enumerate(sorted(bad.items())):
        if n >= MAX_SIGS:
            print('... and %d more distinct violations' % (len(bad) - n))
            break
        path = os.path.join(rdir, '%s-%s.json' % (prop, _slug(sig)))
        with open(path, 'w') as fp:
            json.dump(dict(v, property=prop, tier=tier,
                           replay='bin/check %s %s --shard %d --sig %s' % (prop, tier, v['shard'], json.dumps(sig))),
                      fp, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  sig : %s\n  what: %s\n  case: %s' % (sig, v['what'][:700], v['case'][:700]))
    floor = getattr(mod, 'FLOOR', {}).get(tier, 1)
    cov = {'states': len(ck.states), 'transitions': ck.transitions,
           'traces_validated_against_impl': ck.traces,
           'samples': ck.samples, 'exhaustive': True,
           'pieces': n_shards, 'distinct_outcomes': len(ck.outcomes),
           'outcomes': dict(sorted(ck.outcomes.items(), key=lambda kv: -kv[1])[:25]),
           'bounds': getattr(mod, 'BOUNDS', {}).get(tier, ''),
           'how': (mod.__doc__ or '').strip()}
    cov.update(ck.extra)
    if only is None:
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': mod.LEVEL, 'coverage': cov, 'wall_s': round(wall, 3),
              'assumptions': getattr(mod, 'ASSUMPTIONS', []),
              'violations': len(bad)}
        with open(os.path.join(edir, prop + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
    print('%s %s: %d states, %d transitions, %d traces, %d outcomes, %.1f s%s' % (
        prop, tier, len(ck.states), ck.transitions, ck.traces, len(ck.outcomes), wall,
        '' if not bad else ', %d distinct violations (%d executions)' % (len(bad), ck.n_violations)))
    if bad:
        return 1
    if only is None and (ck.transitions < floor or (len(ck.outcomes) < getattr(mod, 'MIN_OUTCOMES', 2))):
        print('exploration too small: %d transitions (expected at least %d), outcomes %s' % (
            ck.transitions, floor, ck.outcomes))
        return 2
    return 0
