"""The file store as seen by the concurrency and crash checks."""
from .lin import ABSENT


def open_store(path):
    from oidcmsg.storage.abfile import AbstractFileSystem
    return AbstractFileSystem({'fdir': path})


class Slot:
    """one process's store object (opened when first needed if it is None)"""

    def __init__(self, path, store=None):
        self.path, self.store = path, store


def apply(slot, op):
    kind = op[0]
    try:
        if kind == 'open' or slot.store is None:
            slot.store = open_store(slot.path)
            if kind == 'open':
                return None
        s = slot.store
        if kind == 'set':
            s[op[1]] = op[2]
            return None
        if kind == 'update':
            s.update(dict(op[1]))
            return None
        if kind == 'clear':
            s.clear()
            return None
        if kind == 'del':
            try:
                del s[op[1]]
            except KeyError:
                return 'absent'
            return 'done'
        if kind == 'get':
            return s.get(op[1], ABSENT)
        if kind == 'getitem':
            try:
                return s[op[1]]
            except KeyError:
                return ABSENT
        if kind == 'in':
            return op[1] in s
        if kind == 'keys':
            return sorted(s.keys())
        if kind == 'items':
            return sorted((a, b) for a, b in s.items())
        if kind == 'len':
            return len(s)
    except Exception as e:
        return ('raised', '%s: %s' % (type(e).__name__, str(e)[:300]))
    raise AssertionError(op)


def make(path):
    return Slot(path)


def history(trace, closing=()):
    """(begin, end, op, answer) of a trace and of the operations carried out afterwards, one after the other; operations without end were cut off by the death of the process"""
    res = []
    open_ = {}
    last = len(trace.choices)
    for e in trace.events:
        if e.kind == 'begin':
            open_[e.proc] = e
        elif e.kind == 'end':
            b = open_.pop(e.proc)
            res.append((b.no, e.no, e.op, e.result))
    for b in open_.values():
        res.append((b.no, None, b.op, None))
    at = last + 1
    for op, ans in closing:
        res.append((at, at, op, ans))
        at += 1
    return res
