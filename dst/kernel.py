"""The simulator: threads parked and released one at a time, simulated locks, preemption and abort points.

A managed thread runs only while it holds the baton.  At every executed source line (or bytecode) of the library, at
every acquisition and release of a lock, the scheduler decides who runs next; the decision comes from the seeded
generator or, on replay, from the explicit list of switches [[step, thread], ...].
"""
import _thread
import random
import sys
import zlib

mon = sys.monitoring
TOOL = 3
E = mon.events
LIB = "/repo/pddl/"
LARK = "/lark/"


class SimStop(BaseException):
    """Step budget exhausted (raised into code running on the main thread)."""


class SimDeadlock(BaseException):
    pass


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RecursionError": RecursionError}

CUR = [None]  # the active Sim


class Fault:
    """One-shot abort at the k-th eligible call made by the library while its work is in progress."""

    def __init__(self, kind, at, where):
        self.kind, self.at, self.where = kind, at, where
        self.n = 0
        self.fired = False


def unharmed(fn, *args):
    """Call fn on behalf of the harness: an abort planned for the workload does not strike here."""
    sim = CUR[0]
    t = sim.by_ident.get(_thread.get_ident()) if sim else None
    if t is None or t.fault is None:
        return fn(*args)
    f, t.fault = t.fault, None
    try:
        return fn(*args)
    finally:
        t.fault = f


def _eligible(frame, where):
    if frame.f_code.co_name in ("__exit__", "__del__"):  # no way to write clean-up that survives being cut off itself
        return False
    if where == "parse":  # the grammar engine is on the stack: in the middle of a parse
        f = frame.f_back
        while f is not None:
            if LARK in f.f_code.co_filename:
                return True
            f = f.f_back
        return False
    n = int(where)  # nested at least n library calls deep
    f = frame
    while f is not None:
        if f.f_code.co_filename.startswith(LIB):
            n -= 1
            if n <= 0:
                return True
        f = f.f_back
    return False


class SimThread:
    __slots__ = ("idx", "fn", "gate", "state", "lock", "timed", "result", "ident", "fault", "steps", "opsteps", "timed_out")

    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = "ready"
        self.lock = None
        self.timed = False
        self.timed_out = False
        self.result = None
        self.ident = None
        self.fault = None
        self.steps = 0


class Sim:
    """policy: {"p": float} | {"pct": [steps...], "n": len}| {"switches": [[step, idx], ...]}; gran: line|instr|lark."""

    def __init__(self, seed=0, policy=None, gran="line", budget=2_000_000):
        self.rng = random.Random(f"sched:{seed}")
        self.policy = policy or {"switches": []}
        self.gran = gran
        self.budget = budget
        self.step = 0
        self.threads = []
        self.by_ident = {}
        self.main_gate = None
        self.failure = None
        self.switch_log = []
        self.sig = 0
        self.clock = 0.0
        self.blocked_waits = 0
        self.main = SimThread(-1, None)
        self.main.ident = _thread.get_ident()
        self.replay = dict(map(tuple, self.policy["switches"])) if "switches" in self.policy else None
        self.p = self.policy.get("p", 0.0)
        self.pct = set(self.policy.get("pct", ()))
        self.probe = None
        self.fault_log = {}

    # ------------------------------------------------ monitoring
    def _on_line(self, code, _line):
        fn = code.co_filename
        if not fn.startswith(LIB) and not (self.gran == "lark" and LARK in fn):
            return mon.DISABLE
        t = self.by_ident.get(_thread.get_ident())
        if t is not None:
            self.sig = zlib.crc32(b"%d:%d" % (t.idx, _line), self.sig)
            self.point(t)

    def _on_instr(self, code, _off):
        if not code.co_filename.startswith(LIB):
            return mon.DISABLE
        t = self.by_ident.get(_thread.get_ident())
        if t is not None:
            self.sig = zlib.crc32(b"%d:%d" % (t.idx, _off), self.sig)
            self.point(t)

    def _on_start(self, code, _off):
        if not code.co_filename.startswith(LIB):
            return mon.DISABLE
        t = self.by_ident.get(_thread.get_ident())
        if t is None or t.fault is None:
            return
        f = t.fault
        if f.fired or not _eligible(sys._getframe(1), f.where):
            return
        f.n += 1
        if f.n == f.at:
            f.fired = True
            self.fault_log[f.kind] = self.fault_log.get(f.kind, 0) + 1
            raise EXC[f.kind]("injected by the simulator")

    def __enter__(self):
        assert CUR[0] is None
        CUR[0] = self
        mon.use_tool_id(TOOL, "dst")
        ev = E.PY_START
        if self.gran == "instr":
            ev |= E.INSTRUCTION
            mon.register_callback(TOOL, E.INSTRUCTION, self._on_instr)
        else:
            ev |= E.LINE
            mon.register_callback(TOOL, E.LINE, self._on_line)
        mon.register_callback(TOOL, E.PY_START, self._on_start)
        mon.set_events(TOOL, ev)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)
        CUR[0] = None

    # ------------------------------------------------ running
    def call_main(self, fn, fault=None, budget=None):
        """Run fn on the calling thread, alone; returns (kind, value)."""
        t = self.main
        t.fault = Fault(**fault) if fault else None
        t.steps = 0
        if budget:
            self.budget = self.step + budget
        self.by_ident[t.ident] = t
        try:
            try:
                return fn()
            finally:
                self.by_ident.pop(t.ident, None)
        finally:
            self.last_fault = t.fault
            t.fault = None

    def run_threads(self, fns):
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        self.threads = [SimThread(i, f) for i, f in enumerate(fns)]
        for t in self.threads:
            _thread.start_new_thread(self._body, (t,))
        first = self._pick(None)
        first.gate.release()
        self.main_gate.acquire()
        return self.failure

    def _body(self, t):
        t.gate.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            t.result = t.fn(t)
        except BaseException as e:  # the workload itself is expected to catch everything
            t.result = ("harness", repr(e))
        del self.by_ident[t.ident]
        t.state = "done"
        nxt = self._pick(t)
        if nxt is None:
            if any(x.state == "blocked" for x in self.threads) and self.failure is None:
                self.failure = "deadlock"
            self.main_gate.release()
        else:
            nxt.gate.release()

    def _runnable(self, but=None):
        return [x for x in self.threads if x.state == "ready" and x is not but]

    def _pick(self, t):
        """Forced choice: t cannot continue."""
        r = self._runnable(t)
        if not r:
            timed = [x for x in self.threads if x.state == "blocked" and x.timed]
            if not timed:
                return None
            x = timed[0]  # nothing can run: virtual time jumps to the first deadline
            x.state, x.timed_out = "ready", True
            if x.lock is not None:
                x.lock._waiters.remove(x)
            return x
        if self.replay is not None:
            k = self.replay.get(self.step)
            c = [x for x in r if x.idx == k]
            c = c[0] if c else r[0]
        else:
            c = r[self.rng.randrange(len(r))]
        if c is not r[0]:
            self.switch_log.append([self.step, c.idx])
        return c

    def fail(self, t, why):
        self.failure = self.failure or why
        if t is self.main:
            raise SimStop(why)
        self.main_gate.release()
        t.gate.acquire()  # parked for good; the run is over and the process exits

    def point(self, t, force=None):
        self.step += 1
        t.steps += 1
        if self.step > self.budget:
            self.fail(t, "budget")
        if t is self.main:
            return
        s = self.step
        if self.replay is not None:
            k = self.replay.get(s)
            if k is None or k == t.idx:
                return
            c = [x for x in self._runnable(t) if x.idx == k]
            if not c:
                return
            c = c[0]
        else:
            if not (s in self.pct or (self.p and self.rng.random() < self.p)):
                return
            r = self._runnable(t)
            if not r:
                return
            c = r[self.rng.randrange(len(r))]
        self.switch_log.append([s, c.idx])
        c.gate.release()
        t.gate.acquire()

    def block(self, t, lock, timed):
        """t waits for lock; returns when it is handed over or timed out."""
        self.blocked_waits += 1
        t.state, t.lock, t.timed, t.timed_out = "blocked", lock, timed, False
        lock._waiters.append(t)
        self.step += 1
        nxt = self._pick(t)
        if nxt is None:
            self.fail(t, "deadlock")
        if nxt is not t:
            nxt.gate.release()
            t.gate.acquire()
        t.lock, t.timed = None, False
        return not t.timed_out


def _me():
    s = CUR[0]
    if s is None:
        return None, None
    return s, s.by_ident.get(_thread.get_ident())


class SimLock:
    _re = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    def _take(self, me):
        self._owner, self._count = me, 1

    def acquire(self, blocking=True, timeout=-1):
        s, t = _me()
        me = t if t is not None else _thread.get_ident()
        if s is not None and t is not None:
            s.point(t)
        if self._re and self._count and self._owner == me:
            self._count += 1
            return True
        while self._count:
            if not blocking or timeout == 0:
                return False
            if t is None or t is s.main:
                if timeout is not None and timeout > 0:
                    return False
                if s is not None:
                    s.failure = s.failure or "deadlock"
                raise SimDeadlock("lock can never be released")
            if not s.block(t, self, timeout is not None and timeout > 0):
                return False
        self._take(me)
        return True

    def release(self):
        s, t = _me()
        me = t if t is not None else _thread.get_ident()
        if not self._count or (self._re and self._owner != me):
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count:
            return
        self._owner = None
        if self._waiters:
            for w in self._waiters:
                w.state = "ready"
            self._waiters = []
        if s is not None and t is not None:
            s.point(t)

    def locked(self):
        return self._count > 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # what threading.Condition wants of an RLock
    def _is_owned(self):
        s, t = _me()
        return bool(self._count) and self._owner == (t if t is not None else _thread.get_ident())

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _at_fork_reinit(self):
        self.__init__()

    def __reduce_ex__(self, _p):
        raise TypeError(f"cannot pickle '_thread.{'RLock' if self._re else 'lock'}' object")


class SimRLock(SimLock):
    _re = True


def io_point():
    """The operating system has the thread: others may run."""
    s, t = _me()
    if s is not None and t is not None:
        s.point(t)


def sim_sleep(dt):
    s, t = _me()
    if s is not None and t is not None:
        s.clock += dt
        s.point(t)
