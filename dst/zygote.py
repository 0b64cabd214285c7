"""Zygote: a process with a fixed PYTHONHASHSEED that has imported the library and built pristine parser objects.

Protocol on fds 3 (requests) and 4 (answers): 4-byte length + pickle.  Every request is run in a forked child, so each
simulated run starts from the same pristine state.
"""
import ctypes
import gc
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

ENV = {}
LIBC = ctypes.CDLL(None)


def send(fd, obj):
    b = pickle.dumps(obj, 4)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _read(fd, n, deadline=None):
    out = b""
    while len(out) < n:
        if deadline is not None:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                return None
        c = os.read(fd, n - len(out))
        if not c:
            return b""
        out += c
    return out


def recv(fd, deadline=None):
    h = _read(fd, 4, deadline)
    if not h:
        return h
    b = _read(fd, struct.unpack("<I", h)[0], deadline)
    if not b:
        return b
    return pickle.loads(b)


def in_child(fn, *args, wall=60.0):
    """Run fn in a forked child; ("ok", value) | ("crash", how) | ("wall", seconds) | ("harness", traceback)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            LIBC.prctl(1, signal.SIGKILL)  # a run that is killed takes the runs it started with it
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except BaseException:
                out = ("harness", traceback.format_exc())
            send(w, out)
        finally:
            os._exit(0)
    os.close(w)
    try:
        out = recv(r, time.monotonic() + wall)
        if out is None:
            os.kill(pid, signal.SIGKILL)
            out = ("wall", wall)
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    if out == b"":
        out = ("crash", f"wait status {st}")
    return out


def build():
    """Import the library behind the seams and build two pristine parsers of each kind."""
    from . import seams
    import lark  # noqa: F401  (real locks inside dependencies stay real)
    import click  # noqa: F401
    import click.testing  # noqa: F401
    import logging, decimal, locale, threading, warnings, random, copy, tempfile  # noqa
    seams.install()
    sys.path.insert(0, "/repo")
    import pddl
    assert os.path.realpath(pddl.__file__).startswith("/repo/pddl/"), pddl.__file__
    from pddl.parser.domain import DomainParser
    from pddl.parser.problem import ProblemParser
    from pddl.parser.plan import PlanParser
    import pddl.core, pddl.formatter, pddl.__main__  # noqa
    ENV["parsers"] = {"domain": [DomainParser(), DomainParser()], "problem": [ProblemParser(), ProblemParser()],
                      "plan": [PlanParser(), PlanParser()]}


def main():
    sys.dont_write_bytecode = True
    import importlib
    rq, an = int(sys.argv[1]), int(sys.argv[2])
    mods = {}
    try:
        build()
        from . import props  # noqa: F401
        gc.collect()
        gc.freeze()
        send(an, ("ready", None))
    except BaseException:
        send(an, ("harness", traceback.format_exc()))
        return
    while True:
        req = recv(rq)
        if not req:
            return
        modname, fname, args, wall = req
        try:
            if modname not in mods:
                mods[modname] = importlib.import_module(modname)
            fn = getattr(mods[modname], fname)
        except BaseException:
            send(an, ("harness", traceback.format_exc()))
            continue
        send(an, in_child(fn, *args, wall=wall))


if __name__ == "__main__":
    from dst.zygote import main as _main  # one copy of this module only
    _main()
