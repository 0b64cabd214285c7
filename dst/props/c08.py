"""C08: reading files under I/O faults."""
import os
import pathlib
import random

from .. import fp as F
from .. import gen as G
from .. import kernel, runner, seams, simio
from ..zygote import in_child
from ..work import *  # noqa
from .. import work as W

HS = 1
RUNS = {"quick": (550, 150), "thorough": (25000, 3000)}
RULE = ("one case = 1-4 reads of domain, problem or plan files (valid or damaged text, LF/CRLF/CR, non-ASCII comments, padding beyond "
        "buffer sizes, undecodable bytes, missing) through the file helpers, while the simulated disk delivers short reads, interrupts, "
        "signals, open and read errors at any offset, rewrites the file half-way, or fails on the library's grammar file; compared with "
        "parsing the delivered bytes' text alone in a pristine process; open handles counted while the outcome is still held; each file "
        "is then read again in health. Non-trivial: a fault or a short read happened")
MEASURE = "distinct (contents, fault plans) digests"
REAL = W.REAL + ["Python's buffered and text io layers over the simulated raw file"]
STUB = ["raw file: open, read (simulated disk)", "hash() salted (seam)"]


def gen(rng, i, tier, hs):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        kind = rng.choice(["domain", "domain", "problem", "plan"])
        t = W.gen_text(rng, kind)
        if rng.random() < 0.3:
            t = rng.choice(W.variants(rng, t, 1))
        if rng.random() < 0.2:  # larger than the io layer's buffers
            n = rng.choice([5000, 8192, 9000, 70000])
            pad = ("; " + "p\u00e9" * 30 + "\n") * (n // 90)
            k = rng.choice([0, len(t)])
            t = t[:k] + "\n" + pad + t[k:]
        nl = rng.choice(["\n", "\n", "\r\n", "\r"])
        t = t.replace("\r\n", "\n").replace("\n", nl)
        op = {"kind": kind, "text": t, "path": rng.choice(["str", "path", "str", "rel"]), "buf": rng.choice([8192, 8192, 16, 61, 1024])}
        r = rng.random()
        n = len(t.encode("utf-8", "surrogateescape"))
        if r < 0.3:
            op["io"] = simio.gen_soft(rng)
        elif r < 0.6:
            op["io"] = simio.gen_hard(rng, n)
        elif r < 0.66:
            op["io"] = {"reads": [rng.choice([16, 256]), "SIGINT"]}
        elif r < 0.74:
            op["bad_at"] = rng.randrange(n + 1)
        elif r < 0.79:
            op["missing"] = rng.choice(["none", "dir", "dangling"])
            op["appears"] = rng.random() < 0.5
        elif r < 0.87:
            other = W.gen_text(rng, kind) if rng.random() < 0.5 else rng.choice(W.variants(rng, t, 1))
            op["io"] = {"reads": [rng.choice([7, 33, 100])], "rewrite": {"at": rng.randrange(n + 1), "keep": rng.random() < 0.5, "data": other}}
        elif r < 0.95:
            op["grammar"] = simio.gen_hard(rng, 6000) if rng.random() < 0.6 else simio.gen_soft(rng)
        ops.append(op)
    return {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "ops": ops}


def as_text(b):
    """What the bytes of a text file mean (None: nothing)."""
    try:
        return b.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
    except UnicodeDecodeError:
        return None


def observe(case):
    """Runs the calls; returns what they gave and what the disk had delivered (the judging is done by the pristine parent)."""
    import pddl
    import pddl.parser
    seams.SALT[0] = case["salt"]
    obs = []
    st, log, viol = {}, [], None
    grammar = os.path.realpath(pddl.parser.GRAMMAR_FILE)
    sim = kernel.Sim()
    with simio.Disk() as disk, sim:
        os.chdir(disk.dir)
        for n, op in enumerate(case["ops"]):
            data = op["text"].encode("utf-8", "surrogateescape")
            if op.get("bad_at") is not None:
                data = data[:op["bad_at"]] + random.Random(n).choice([b"\xff", b"\xe9", b"\xc3\x28", b"\x80"]) + data[op["bad_at"]:]
            fn = disk.put(f"{n}.pddl", data)
            if op.get("missing"):
                os.unlink(fn)
                if op["missing"] == "dir":
                    os.mkdir(fn)
                elif op["missing"] == "dangling":
                    os.symlink(fn + ".gone", fn)
            disk.bufsize = op["buf"]
            arg = {"str": fn, "path": pathlib.Path(fn), "rel": os.path.basename(fn)}[op["path"]]
            helper = getattr(pddl, "parse_" + op["kind"])
            for attempt in ("faulty", "healthy"):
                if op.get("appears") and attempt == "healthy":  # what was missing is there now
                    if op["missing"] == "dir":
                        os.rmdir(fn)
                    elif op["missing"] == "dangling":
                        os.unlink(fn)
                    disk.put(f"{n}.pddl", data)
                disk.failed = False
                first = len(disk.handles)
                if attempt == "faulty":
                    if op.get("io"):
                        disk.plan(fn, dict(op["io"], rewrite=dict(op["io"]["rewrite"])) if op["io"].get("rewrite") else op["io"])
                    if op.get("grammar"):
                        disk.plans[grammar] = [op["grammar"]]
                held = []

                def call():
                    try:
                        held.append(helper(arg))
                    except (kernel.SimStop, kernel.SimDeadlock):
                        raise
                    except BaseException as e:
                        held.append(e)  # its traceback keeps the frames alive
                        return W.err(e)
                    # closed or not is judged while the result is held and before anything else runs
                    return ["ok", None]
                try:
                    got = sim.call_main(call, None, W.budget_for(op["text"]) * 2 + 3_000_000)
                except (kernel.SimStop, kernel.SimDeadlock) as e:
                    viol = ["stuck", f"call {n} ({attempt}) never ended ({e})"]
                    break
                left = [h.path for h in disk.handles if not h.closed]
                if left:
                    viol = ["left_open", f"call {n} ({attempt}, {got[:2]}) left open: {[os.path.basename(x) for x in left]}"]
                    break
                if got[0] == "ok":
                    got = ["ok", F.fp(held[0])]
                del held[:]
                disk.plans.pop(grammar, None)
                disk.plans.pop(os.path.realpath(fn), None)
                log.append([attempt, got[0], got[1] if got[0] == "err" else "", disk.failed])
                if disk.failed:
                    st["failed_reads"] = st.get("failed_reads", 0) + 1
                    if got[0] == "ok":
                        viol = ["false_result", f"call {n}: opening or reading failed, yet it returned {W.short(got[1])}"]
                        break
                    continue
                if op.get("missing") and not (op.get("appears") and attempt == "healthy"):
                    if got[0] == "ok":
                        viol = ["false_result", f"call {n}: the file is missing, yet it returned {W.short(got[1])}"]
                        break
                    continue
                mine = [bytes(h.got) for h in disk.handles[first:] if h.path == os.path.realpath(fn)]
                with simio._real_open(fn, "rb") as f:
                    now = f.read()
                texts = [as_text(b) for b in (mine or [now])]
                if not (attempt == "faulty" and (op.get("io") or {}).get("rewrite")):
                    texts = [as_text(now)]  # the file did not change: its whole text counts
                obs.append([n, attempt, op["kind"], got, texts])
            if viol:
                break
        os.chdir("/")
        for k, v in disk.stats.items():
            st[k] = st.get(k, 0) + v
    st["steps"] = sim.step
    st["calls"] = len(log)
    return viol, st, log, sim.sig, obs


def stage(case):
    s, r = in_child(observe, case, wall=80)
    if s != "ok":
        if s == "harness":
            raise RuntimeError(r)
        return {"viol": ["crash", f"the run ended with {s} {r}"], "digest": s}
    viol, st, log, sig, obs = r
    refs = W.Refs(case["salt"])
    for n, attempt, kind, got, texts in obs:
        fails = []
        for t in texts:
            if t is None:
                fails.append(None if got[0] == "err" else f"undecodable bytes, yet it returned {W.short(got[1])}")
                continue
            ref = refs(kind, t)
            fails.append(None if ref[0] == "stuck" else W.differ(got, ref))
        st["compared"] = st.get("compared", 0) + 1
        if all(fails):
            viol = ["wrong", f"call {n} ({attempt}, {kind}): {fails[0]}\ntext: {str(texts[0])[:1500]}"]
            break
    return {"viol": viol, "stats": st, "log": log, "sig": runner.digest(case["ops"]), "digest": runner.digest([log, viol, sig]),
            "nontrivial": any(k.startswith("fault:") for k in st)}


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=90)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    return out[1]


def shrink(case):
    for ops in W.without(case["ops"]):
        if ops:
            yield dict(case, ops=ops)
    for i, op in enumerate(case["ops"]):
        for k in ("io", "grammar", "bad_at", "missing"):
            if op.get(k) is not None:
                yield dict(case, ops=case["ops"][:i] + [{x: y for x, y in op.items() if x != k}] + case["ops"][i + 1:])
        if (op.get("io") or {}).get("reads") and "rewrite" not in op["io"]:
            io_ = {x: y for x, y in op["io"].items() if x != "reads"}
            yield dict(case, ops=case["ops"][:i] + [dict(op, io=io_ or None)] + case["ops"][i + 1:])
        if op["buf"] != 8192:
            yield dict(case, ops=case["ops"][:i] + [dict(op, buf=8192)] + case["ops"][i + 1:])
        for u in W.shrink_text(op["text"]):
            yield dict(case, ops=case["ops"][:i] + [dict(op, text=u)] + case["ops"][i + 1:])
