"""The SQL store as seen by the concurrency and crash checks."""
import os

from .lin import ABSENT


def template(path):
    """an empty database as the library creates it"""
    from oidcmsg.storage.db_setup import create_database
    create_database({'url': 'sqlite:///' + path})
    with open(path, 'rb') as fp:
        return fp.read()


def conf(path):
    return {'url': 'sqlite:///' + path, 'params': {'table': 'thing'}}


def open_store(path):
    from oidcmsg.storage.absqlalchemy import AbstractStorageSQLAlchemy
    return AbstractStorageSQLAlchemy(conf(path))


def shut(s):
    """what the end of a process does"""
    for what in (lambda: s.session.remove(), lambda: s.connection.close(), lambda: s.engine.dispose()):
        try:
            what()
        except Exception:
            pass


class Slot:
    def __init__(self, path, store=None):
        self.path, self.store = path, store


_last = []


def make(path):
    while _last:
        s = _last.pop()
        if s.store is not None:
            shut(s.store)
    s = Slot(path)
    _last.append(s)
    return s


def apply(slot, op):
    kind = op[0]
    try:
        if kind == 'open' or slot.store is None:
            if slot.store is not None:
                shut(slot.store)
            slot.store = open_store(slot.path)
            if kind == 'open':
                return None
        s = slot.store
        if kind == 'set':
            s.set(op[1], op[2])
            return None
        if kind == 'change':
            s.update(op[1], op[2])
            return None
        if kind == 'remove':
            return s.delete(op[1])
        if kind == 'get':
            r = s.get(op[1])
            return ABSENT if r is None else r
        if kind == 'in':
            return op[1] in s
        if kind == 'keys':
            return sorted(r.owner for r in s())
        if kind == 'items':
            return sorted((r.owner, r.data) for r in s)
        if kind == 'refused':
            try:
                getattr(s, op[2])(op[1], *op[3:])
            except Exception:
                return 'refused'
            return 'accepted'
    except Exception as e:
        return ('raised', '%s: %s' % (type(e).__name__, str(e)[:300]))
    raise AssertionError(op)
