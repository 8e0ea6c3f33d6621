"""Linearizability of histories over a dictionary, key by key (an operation on several keys counts as one operation per key)."""
import itertools

ABSENT = '<absent>'


class Op:
    __slots__ = ('begin', 'end', 'kind', 'val', 'what', 'maybe')

    def __init__(self, begin, end, kind, val, what, maybe=False):
        self.begin, self.end, self.kind, self.val, self.what, self.maybe = begin, end, kind, val, what, maybe

    def __repr__(self):
        return '[%s,%s] %s' % (self.begin, self.end, self.what)


def step(state, op):
    """the state after op, or None when op can not have this answer in this state"""
    k, v = op.kind, op.val
    if k == 'w':
        return (v,)
    if k == 'd':
        if v == 'absent' and state != ABSENT:
            return None
        return (ABSENT,)
    if k == 'r':
        return (state,) if v == state else None
    if k == 'c':
        return (state,) if v == (state != ABSENT) else None
    if k == 'u':        # changes a present entry only
        return (state if state == ABSENT else v,)
    if k == 'n':        # deletes and tells how many entries there were
        return (ABSENT,) if v is None or v == (0 if state == ABSENT else 1) else None
    raise AssertionError(k)


def linearizable(ops, init):
    """is there an order of ops, consistent with real time, that a register starting with init allows?
    ops without an end (the process died) may or may not have happened"""
    n = len(ops)
    seen = set()

    def go(done, state):
        if (done, state) in seen:
            return False
        seen.add((done, state))
        left = [i for i in range(n) if not done >> i & 1]
        if all(ops[i].end is None for i in left):
            return True
        first_end = min((ops[i].end for i in left if ops[i].end is not None))
        for i in left:
            o = ops[i]
            if o.begin > first_end:
                continue
            if o.end is None and o.kind in 'rc':
                continue
            s = step(state, o)
            if s is not None and go(done | 1 << i, s[0]):
                return True
            if o.maybe and go(done | 1 << i, state):
                return True
        return False

    return go(0, init)


def split(keys, history, init):
    """history: (begin, end, op, answer) with ops as in mc.filestore.apply. Returns None or what is wrong.
    The answer ('faulted', text) is that of an operation that failed because of an injected fault: it may have had its effect or not."""
    per = {k: [] for k in keys}
    lens = []
    for b, e, op, ans in history:
        kind = op[0]
        what = '%r -> %r' % (op, ans if not isinstance(ans, str) or len(ans) < 40 else ans[:10] + '...')
        bad = isinstance(ans, tuple) and len(ans) == 2 and ans[0] == 'raised'
        if bad:
            return 'spurious error: %s' % what
        faulted = isinstance(ans, tuple) and len(ans) == 2 and ans[0] == 'faulted'
        if kind == 'set':
            per[op[1]].append(Op(b, e, 'w', op[2], what, faulted))
        elif kind == 'update':
            for k, v in op[1]:
                per[k].append(Op(b, e, 'w', v, what, faulted))
        elif kind == 'del':
            per[op[1]].append(Op(b, e, 'd', ans, what, faulted))
        elif kind == 'change':
            per[op[1]].append(Op(b, e, 'u', op[2], what, faulted))
        elif kind == 'remove':
            if e is not None and not faulted and type(ans) is not int:
                return 'no number of deleted entries: %s' % what
            per[op[1]].append(Op(b, e, 'n', None if e is None or faulted else ans, what, faulted))
        elif kind == 'refused':      # an operation that has to be refused changes nothing
            if e is not None and not faulted and ans != 'refused':
                return 'accepted: %s' % what
        elif kind == 'clear':
            for k in keys:
                per[k].append(Op(b, e, 'd', 'done', what, faulted))
        elif e is None or faulted:
            continue
        elif kind in ('get', 'getitem'):
            per[op[1]].append(Op(b, e, 'r', ans, what))
        elif kind == 'in':
            per[op[1]].append(Op(b, e, 'c', ans, what))
        elif kind == 'keys':
            if len(set(ans)) != len(ans) or not set(ans) <= set(keys):
                return 'listing with keys nobody ever set: %s' % what
            for k in keys:
                per[k].append(Op(b, e, 'c', k in ans, what))
        elif kind == 'items':
            d = dict(ans)
            if len(d) != len(ans) or not set(d) <= set(keys):
                return 'listing with keys nobody ever set: %s' % what
            for k in keys:
                per[k].append(Op(b, e, 'r', d.get(k, ABSENT), what))
        elif kind == 'len':
            lens.append((b, e, ans, what))
    guesses = [[s for r in (n,) for s in itertools.combinations(keys, r)] if 0 <= n <= len(keys) else [] for _, _, n, _ in lens]
    for guess in itertools.product(*guesses):
        ok = True
        for k in keys:
            extra = [Op(b, e, 'c', k in g, what) for (b, e, n, what), g in zip(lens, guess)]
            if not linearizable(per[k] + extra, init.get(k, ABSENT)):
                ok = False
                break
        if ok:
            return None
    for k in keys:
        if not linearizable(per[k], init.get(k, ABSENT)):
            return 'no order explains key %r: %s' % (k, '; '.join(map(repr, per[k])))
    return 'no order explains a length: %r' % lens
