"""Simulated disk: files live in a scratch directory; what the operating system does under Python's real buffered and
text layers is decided by a fault plan per open of a file.

Plan for one open (JSON): {"open": errno-name | null, "reads": [item, ...], "rewrite": {...}}; an item is
  n > 0          deliver at most n bytes
  "EINTR"        the read is interrupted (and retried by the io layer)
  "EIO", ...     the read fails
The list is cycled for n and EINTR; a hard error stays.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

from . import kernel

_real_open = builtins.open
_os = {k: getattr(os, k) for k in ("open", "read", "close", "lseek", "pread", "readv")}
HARD = ["EIO", "EBADF", "EISDIR", "ESTALE"]
OPEN_ERR = ["ENOENT", "EACCES", "EMFILE", "ENFILE", "EIO", "ELOOP"]
SMALL = [1, 1, 2, 3, 5, 7, 16, 64]


def oserror(name):
    e = getattr(errno, name)
    return OSError(e, os.strerror(e))


def gen_soft(rng):
    n = rng.randint(1, 8)
    r = []
    for _ in range(n):
        if rng.random() < 0.2:
            r.append("EINTR")
        r.append(rng.choice(SMALL))
    return {"reads": r}


def gen_hard(rng, size):
    if rng.random() < 0.35:
        return {"open": rng.choice(OPEN_ERR)}
    r = gen_soft(rng)["reads"] if rng.random() < 0.5 else [rng.choice([16, 64, 256])]
    return {"reads": r, "fail_at": rng.choice([0, 0, 1, size // 2, max(0, size - 1), size, rng.randrange(size + 1)]),
            "error": rng.choice(HARD)}


class FaultyRaw(io.RawIOBase):
    """The file as the operating system hands it out."""

    def __init__(self, disk, path, plan, fd=None):
        super().__init__()
        self.disk, self.path, self.plan_ = disk, path, plan
        self.fd = _os["open"](path, os.O_RDONLY | os.O_CLOEXEC) if fd is None else fd
        self.pos = 0
        self.k = 0
        self.name = path
        self.got = bytearray()
        self.mode = "rb"
        disk.handles.append(self)

    def readable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self.fd if not self.closed else super().fileno()

    def isatty(self):
        return False

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        base = {0: 0, 1: self.pos, 2: os.fstat(self.fd).st_size}[whence]
        self.pos = base + off
        return self.pos

    def readinto(self, b):
        kernel.io_point()
        p, st = self.plan_, self.disk.stats
        n = len(b)
        if p:
            fa = p.get("fail_at")
            if fa is not None and self.pos >= fa:
                st["fault:read_" + p["error"]] = st.get("fault:read_" + p["error"], 0) + 1
                self.disk.failed = True
                raise oserror(p["error"])
            rs = p.get("reads")
            if rs:
                it = rs[self.k % len(rs)]
                self.k += 1
                if it == "SIGINT":  # the signal's handler raises
                    st["fault:read_SIGINT"] = st.get("fault:read_SIGINT", 0) + 1
                    self.disk.failed = True
                    raise KeyboardInterrupt
                if it == "EINTR":  # retried below the io layer (PEP 475)
                    st["fault:EINTR"] = st.get("fault:EINTR", 0) + 1
                    kernel.io_point()
                    it = next((x for x in rs if isinstance(x, int)), n)
                if it < n:
                    st["fault:short_read"] = st.get("fault:short_read", 0) + 1
                    n = it
                if fa is not None and self.pos + n > fa:
                    n = fa - self.pos
            rw = p.get("rewrite")
            if rw and self.pos >= rw["at"] and not rw.get("done"):
                rw["done"] = True
                st["fault:rewritten_while_read"] = st.get("fault:rewritten_while_read", 0) + 1
                with _real_open(self.path, "r+b" if rw["keep"] else "wb") as f:  # same inode, new content
                    f.write(rw["data"].encode("utf-8", "surrogateescape"))
        data = _os["pread"](self.fd, n, self.pos)
        b[:len(data)] = data
        self.pos += len(data)
        self.got += data
        return len(data)

    def close(self):
        if not self.closed:
            try:
                _os["close"](self.fd)
            finally:
                self.disk.fds.pop(self.fd, None)
                super().close()

    def __del__(self):
        # closing by the garbage collector is not closing by the library
        try:
            if not self.closed:
                self.disk.gc_closed.append(self.path)
        except Exception:
            pass


class Disk:
    """Scratch directory with faults; also faults on the library's own files (the grammar) when planned."""

    def __init__(self):
        self.stats, self.handles, self.plans = {}, [], {}
        self.gc_closed = []
        self.failed = False
        self.opens = {}
        self.fds = {}  # descriptors opened with os.open

    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="dst-"))
        self._o, self._io = builtins.open, io.open
        builtins.open = io.open = self._open
        for k in _os:
            setattr(os, k, getattr(self, "_os_" + k))
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self._o, self._io
        for k, v in _os.items():
            setattr(os, k, v)
        shutil.rmtree(self.dir, ignore_errors=True)

    def put(self, name, data):
        fn = os.path.join(self.dir, name)
        with _real_open(fn, "wb") as f:
            f.write(data)
        return fn

    def plan(self, fn, *plans):
        """Plans for the 1st, 2nd, ... open of the file; then healthy."""
        self.plans[os.path.realpath(fn)] = list(plans)

    def _mine(self, file):
        """-> the real path, if the file is one of the simulated disk's."""
        p = os.path.realpath(os.fspath(file))
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p.startswith(self.dir + os.sep) or self.plans.get(p) is not None else None

    def _next(self, p, file):
        """The plan for this open of the file; fails if the plan says so."""
        plans = self.plans.get(p)
        self.opens[p] = self.opens.get(p, 0) + 1
        plan = plans.pop(0) if plans else None
        if plan and plan.get("open"):
            self.stats["fault:open_" + plan["open"]] = self.stats.get("fault:open_" + plan["open"], 0) + 1
            self.failed = True
            e = oserror(plan["open"])
            e.filename = file
            raise e
        return plan

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = None if dir_fd is not None or flags & (os.O_WRONLY | os.O_RDWR | os.O_DIRECTORY) else self._mine(path)
        if p is None:
            return _os["open"](path, flags, mode, dir_fd=dir_fd)
        plan = self._next(p, path)
        fd = _os["open"](path, flags, mode)
        self.fds[fd] = FaultyRaw(self, p, plan, fd)
        return fd

    def _os_read(self, fd, n):
        raw = self.fds.get(fd)
        if raw is None:
            return _os["read"](fd, n)
        b = bytearray(n)
        return bytes(b[:raw.readinto(b)])

    def _os_readv(self, fd, buffers):
        raw = self.fds.get(fd)
        if raw is None:
            return _os["readv"](fd, buffers)
        data = self._os_read(fd, sum(map(len, buffers)))
        k = 0
        for b in buffers:
            part = data[k:k + len(b)]
            b[:len(part)] = part
            k += len(part)
        return len(data)

    def _os_pread(self, fd, n, off):
        raw = self.fds.get(fd)
        if raw is None:
            return _os["pread"](fd, n, off)
        at, raw.pos = raw.pos, off
        try:
            return self._os_read(fd, n)
        finally:
            raw.pos = at

    def _os_lseek(self, fd, off, whence):
        raw = self.fds.get(fd)
        return _os["lseek"](fd, off, whence) if raw is None else raw.seek(off, whence)

    def _os_close(self, fd):
        raw = self.fds.get(fd)
        return _os["close"](fd) if raw is None else raw.close()

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        raw = self.fds.get(file) if isinstance(file, int) else None
        if isinstance(file, int) and (raw is None or not closefd):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if raw is None:
            try:
                p = self._mine(file)
            except TypeError:
                p = None
            if p is None or set(mode) & set("wax+") or opener is not None:
                return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            # the real checks of mode, encoding and existence
            raw = FaultyRaw(self, p, self._next(p, file))
        binary = "b" in mode
        if binary and (encoding or errors or newline):
            raw.close()
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if buffering == 0:
            if not binary:
                raw.close()
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else self.bufsize
        buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, buffering == 1)
        t.mode = mode
        return t

    bufsize = io.DEFAULT_BUFFER_SIZE

    def left_open(self):
        return [h.path for h in self.handles if not h.closed] + self.gc_closed


class OutRaw(io.RawIOBase):
    """Standard output as the operating system takes it.  plan: {"writes": [n | "EINTR", ...], "cap": bytes,
    "error": name, "once": the error passes after one try, "mode": "block" | "line" | "raw"}"""

    def __init__(self, plan, stats, fd=None):
        super().__init__()
        self.plan_, self.stats = plan or {}, stats
        self.got = bytearray()
        self.k = 0
        self.failed = False

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def write(self, b):
        # no switch of threads here: the buffer above holds a lock of the C layer, on which another thread would really wait
        b = bytes(b)
        p, st = self.plan_, self.stats
        n = len(b)
        ws = p.get("writes")
        if ws:
            it = ws[self.k % len(ws)]
            self.k += 1
            if it == "EINTR":  # retried below the io layer (PEP 475)
                st["fault:write_EINTR"] = st.get("fault:write_EINTR", 0) + 1
                it = next((x for x in ws if isinstance(x, int)), n)
            if it < n:
                st["fault:short_write"] = st.get("fault:short_write", 0) + 1
                n = it
        cap = p.get("cap")
        if cap is not None:
            left = cap - len(self.got)
            # an unbuffered text stream ignores short writes (CPython), so there the write that does not fit fails as a whole
            if n and (left <= 0 or p.get("mode") == "raw" and n > left) and not (p.get("once") and self.failed):
                st["fault:write_" + p["error"]] = st.get("fault:write_" + p["error"], 0) + 1
                self.failed = True
                raise oserror(p["error"])
            if not (p.get("once") and self.failed):
                n = min(n, left)
        self.got += b[:n]
        return n


def stdout_on(raw):
    """The text stream the interpreter makes for a pipe or file, for a terminal, or with -u."""
    mode = raw.plan_.get("mode", "block")
    return io.TextIOWrapper(raw if mode == "raw" else io.BufferedWriter(raw), encoding="utf-8", line_buffering=mode == "line",
                            write_through=mode == "raw")
