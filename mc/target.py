"""Loads the library under test from the working tree, never from stale byte code."""
import ctypes
import importlib
import logging
import os
import shutil
import sys
import tempfile
import warnings

from . import core

MODULES = ['oidcmsg', 'oidcmsg.exception', 'oidcmsg.time_util', 'oidcmsg.message', 'oidcmsg.oauth2',
           'oidcmsg.oidc', 'oidcmsg.oauth2.device_authorization', 'oidcmsg.oidc.session',
           'oidcmsg.oidc.identity_assurance', 'oidcmsg.storage', 'oidcmsg.storage.abfile',
           'oidcmsg.storage.converter', 'oidcmsg.storage.extension', 'oidcmsg.storage.init',
           'oidcmsg.storage.absqlalchemy', 'oidcmsg.storage.db_setup', 'oidcmsg.context']


def setup():
    """No byte code is read from or written next to the sources."""
    import cryptojwt.jwe.jwe  # noqa  (third party: keeps its own caches)
    import cryptojwt.jws.jws  # noqa
    import cryptojwt.jwt  # noqa
    import cryptojwt.key_jar  # noqa
    import filelock  # noqa
    import sqlalchemy.orm  # noqa
    import sqlalchemy.dialects.sqlite  # noqa
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-mc-pycache'
    src = os.path.join(core.REPO, 'src')
    sys.path[:] = [p for p in sys.path if os.path.realpath(p) != os.path.realpath('/repo/src')]
    sys.path.insert(0, src)


def load():
    for m in MODULES:
        importlib.import_module(m)
    mod = sys.modules['oidcmsg']
    assert os.path.realpath(mod.__file__).startswith(os.path.realpath(core.REPO) + os.sep), mod.__file__


# --- shim -----------------------------------------------------------------
class Shim:
    def __init__(self):
        self.L = ctypes.CDLL(None)
        i64 = ctypes.c_int64
        try:
            self.L.mc_present()
        except AttributeError:
            raise SystemExit('the shim is not loaded; start checks with bin/check')
        self.L.mc_private()      # workers do not share clocks
        self.L.mc_clock_set.argtypes = [i64, i64]
        self.L.mc_clock_get.restype = i64
        self.L.mc_clock_reads.restype = i64
        self.L.mc_mtime.argtypes = [ctypes.c_int, i64]
        self.L.mc_mtime_at.argtypes = [i64]
        self.L.mc_mtime_now.restype = i64
        self.L.mc_set_root.argtypes = [ctypes.c_char_p]

    def clock(self, seconds, step_ns=0):
        """freeze CLOCK_REALTIME at `seconds` (int, or float/Fraction)"""
        self.L.mc_clock_set(int(seconds * 1000000000), step_ns)

    def clock_off(self):
        self.L.mc_clock_off()

    def root(self, path):
        self.L.mc_set_root(path.encode())

    def mtime(self, on=True, step_ns=1000000):
        self.L.mc_mtime(1 if on else 0, step_ns)

    def mtime_at(self, ns):
        self.L.mc_mtime_at(ns)

    def mtime_now(self):
        return self.L.mc_mtime_now()

    def sched(self, req, rep):
        self.L.mc_sched(req, rep)


_shim = None


def shim():
    """the shim of this worker process (its children share it)"""
    global _shim
    if _shim is None:
        _shim = Shim()
    return _shim


def scratch(prefix='mc-'):
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


class Scratch:
    def __enter__(self):
        self.dir = scratch()
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)
