"""Seams put around the library from outside; /repo itself is not edited.

* hash(): the name `hash` inside every pddl module is bound to a salted, address-independent function, so that the
  iteration order of sets of model objects is a function of (PYTHONHASHSEED, salt) and can be varied per run.
* threading.Lock / RLock (and what threading builds on them), and the import system's module locks: simulated locks,
  owned by the scheduler in kernel.py.
* time.sleep: a scheduling point that advances a virtual clock.
"""
import _thread
import builtins
import importlib.machinery
import importlib.util
import sys
import threading
import time
import zlib

from . import kernel

_bhash = builtins.hash
SALT = [0]
_M = (1 << 61) - 1


def simhash(x):
    if type(x) is tuple:
        h = 0x345678 + len(x) + SALT[0]
        for e in x:
            h = ((h ^ simhash(e)) * 1000003 + 82520) & _M
        return h
    if isinstance(x, type):
        return (zlib.crc32((x.__module__ + "." + x.__qualname__).encode()) * 2654435761 + SALT[0]) & _M
    return _bhash(x)


class _Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        module.__dict__["hash"] = simhash
        super().exec_module(module)


class _Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname != "pddl" and not fullname.startswith("pddl."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def purge():
    """Forget the library, so that the next import is a cold one."""
    for k in [k for k in sys.modules if k == "pddl" or k.startswith("pddl.")]:
        del sys.modules[k]


class _ThreadProxy:
    """_thread as seen by the import system."""

    def __getattr__(self, k):
        return getattr(_thread, k)

    @staticmethod
    def allocate_lock():
        return kernel.SimLock()

    @staticmethod
    def RLock():
        return kernel.SimRLock()


_installed = [False]


def install():
    if _installed[0]:
        return
    _installed[0] = True
    threading.Lock = kernel.SimLock
    threading.RLock = kernel.SimRLock
    threading._allocate_lock = kernel.SimLock
    threading._CRLock = kernel.SimRLock
    sys.modules["importlib._bootstrap"]._thread = _ThreadProxy()
    sys.modules["_frozen_importlib"]._thread = _ThreadProxy()
    sys.meta_path.insert(0, _Finder)
    time.sleep = kernel.sim_sleep
