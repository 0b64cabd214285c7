"""Process-wide state: randomised initial values, snapshots, differences."""
import builtins
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import time
import warnings

import click

from . import kernel

SIGS = [s for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP)]


def _h1(*_a):
    pass


def _h2(*_a):
    pass


def randomise(rng, scratch, out):
    """Give the settings values of the program's own choosing (so that 'resetting to the default' shows)."""
    if rng.random() < 0.5:
        sys.tracebacklimit = rng.choice([0, 1, 7, 100, 1000, None])
    elif hasattr(sys, "tracebacklimit"):
        del sys.tracebacklimit
    sys.setrecursionlimit(rng.choice([1000, 2100, 3777, 5000]))
    sys.stdout = out
    if rng.random() < 0.5:
        sys.stderr = io.StringIO()
    if rng.random() < 0.6:
        warnings.filterwarnings(rng.choice(["ignore", "always", "default"]), rng.choice(["zzz", "yyy"]))
    if rng.random() < 0.5:
        gc.set_threshold(rng.choice([700, 1234, 5000]), 9, 11)
    if rng.random() < 0.3:
        gc.disable()
    c = decimal.getcontext()
    if rng.random() < 0.6:
        c.prec = rng.choice([19, 50, 99])
        c.rounding = rng.choice([decimal.ROUND_DOWN, decimal.ROUND_HALF_UP])
    if rng.random() < 0.3:
        locale.setlocale(locale.LC_ALL, rng.choice(["C", "C.UTF-8"]))
    for s in (signal.SIGUSR1, signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM):
        if rng.random() < 0.5:
            signal.signal(s, rng.choice([_h1, _h2, signal.SIG_IGN]))
    if rng.random() < 0.5:
        os.chdir(scratch)
    for k in rng.sample(["COLUMNS", "DST_X", "PDDL", "LANG"], 2):
        os.environ[k] = str(rng.randrange(40, 200))
    random.seed(rng.randrange(1 << 30))
    if rng.random() < 0.5:
        logging.getLogger().setLevel(rng.choice([10, 20, 40]))
    if rng.random() < 0.5:
        logging.getLogger().addHandler(logging.NullHandler())
    os.umask(rng.choice([0o22, 0o77, 0o27]))
    if rng.random() < 0.3:
        sys.setswitchinterval(0.01)
    if rng.random() < 0.3:
        sys.set_int_max_str_digits(rng.choice([0, 700, 5000]))


def _dec(c):
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(k.__name__ for k, v in c.traps.items() if v)))


def _stream(f):
    try:
        return (id(f), f.closed, getattr(f, "encoding", None), getattr(f, "errors", None), getattr(f, "line_buffering", None),
                getattr(f, "write_through", None))
    except Exception as e:
        return (id(f), type(e).__name__)


def _logger(x):
    return (x.level, [id(h) for h in x.handlers], x.disabled, x.propagate, [id(f) for f in x.filters])


def thread_local():
    return {"decimal_context": _dec(decimal.getcontext()), "trace": sys.gettrace(), "profile": sys.getprofile()}


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink(f"/proc/self/fd/{n}")
        except OSError:  # the listing's own descriptor
            pass
    return out


def tasks(want=None):
    """Number of operating-system threads; those that are just ending are waited for."""
    end = time.monotonic() + 2
    while True:
        n = len(os.listdir("/proc/self/task"))
        if want is None or n <= want or time.monotonic() > end:
            return n
        os.sched_yield()


def snapshot(prev=None):
    gc.collect()
    u = os.umask(0)
    os.umask(u)
    try:
        cwd = os.getcwd()
    except OSError as e:
        cwd = type(e).__name__
    s = {
        "traceback_limit": getattr(sys, "tracebacklimit", None),
        "recursion_limit": sys.getrecursionlimit(),
        "stdin": _stream(sys.stdin), "stdout": _stream(sys.stdout), "stderr": _stream(sys.stderr),
        "orig_streams": (id(sys.__stdin__), id(sys.__stdout__), id(sys.__stderr__)),
        "hooks": tuple(id(getattr(sys, k)) for k in ("displayhook", "excepthook", "unraisablehook", "breakpointhook"))
        + (id(threading.excepthook),),
        "argv": list(sys.argv), "path": list(sys.path), "meta_path": [id(x) for x in sys.meta_path],
        "path_hooks": [id(x) for x in sys.path_hooks],
        "switch_interval": sys.getswitchinterval(), "int_digits": sys.get_int_max_str_digits(),
        "dont_write_bytecode": sys.dont_write_bytecode,
        "warning_filters": [repr(x) for x in warnings.filters], "showwarning": id(warnings.showwarning),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), [id(c) for c in gc.callbacks]),
        "decimal_default": _dec(decimal.DefaultContext),
        "locale": locale.setlocale(locale.LC_ALL), "signals": {int(x): signal.getsignal(x) for x in SIGS},
        "sigmask": sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        "timers": [signal.getitimer(x) != (0.0, 0.0) for x in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "cwd": cwd, "umask": u, "environ": dict(os.environ), "random": hash(random.getstate()),
        "logging": {n or "root": _logger(logging.getLogger(n)) for n in ("", "lark", "click", "pddl", "warnings")},
        "logging_global": (logging.root.manager.disable, logging.raiseExceptions, id(logging.getLoggerClass()),
                           id(logging.getLogRecordFactory())),
        "builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"},
        "io_open": (id(io.open), id(os.open)), "faulthandler": faulthandler.is_enabled(),
        "rlimits": {k: resource.getrlimit(getattr(resource, k)) for k in dir(resource) if k.startswith("RLIMIT_")},
        "nice": os.nice(0), "stack_size": threading.stack_size(),
        "threads": sorted(t.name for t in threading.enumerate() if not isinstance(t, threading._DummyThread)),
        "click_context": repr(click.get_current_context(silent=True)),
        "fds": fds(),
    }
    s.update(thread_local())
    s["os_threads"] = tasks(prev["os_threads"] if prev else None)
    return s


def diff(a, b):
    return [f"{k}: {show(a[k])} became {show(b[k])}" for k in a if a[k] != b[k]]


def show(x):
    x = str(x)
    return x if len(x) < 200 else x[:200] + "..."
