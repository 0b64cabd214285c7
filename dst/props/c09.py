"""C09: the command line's exit status and output."""
import copy
import io
import os
import random
import runpy
import sys

from .. import fp as F
from .. import gen as G
from .. import kernel, runner, seams, simio
from ..zygote import in_child
from ..work import *  # noqa
from .. import work as W

HS = 2
RUNS = {"quick": (1000, 150), "thorough": (20000, 3000)}
RULE = ("one case = one in-process run of the real command with 1-3 files (valid, damaged, missing, mismatched, faulty to read), with or "
        "without -q, on a standard output that takes small writes, is interrupted, fills up, or is a closed pipe; expected status and "
        "bytes come from the library calls made one by one in pristine processes. Non-trivial: any")
MEASURE = "distinct (files, faults, status, output) digests"
REAL = W.REAL + ["click 8"]
STUB = ["standard output's file descriptor (raw layer)", "raw disk reads", "interpreter start-up and shutdown: the final flush of "
        "stdout and its exit status 120 are emulated", "hash() salted (seam)"]


def invoke(argv, outplan, stats, entry="script"):
    """Run the real click command as the console script (or python -m pddl) does; (status, bytes that reached stdout)."""
    from pddl.__main__ import cli
    raw = simio.OutRaw(outplan, stats)
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = simio.stdout_on(raw), io.StringIO()
    err = ""
    try:
        try:
            if entry == "module":
                old_argv, sys.argv = sys.argv, ["pddl"] + list(argv)
                try:
                    runpy.run_module("pddl", run_name="__main__", alter_sys=True)
                finally:
                    sys.argv = old_argv
            else:
                cli.main(args=list(argv), prog_name="pddl")
            status = 0
        except SystemExit as e:
            c = e.code
            status = 0 if c is None else c if isinstance(c, int) else 1
        except (kernel.SimStop, kernel.SimDeadlock):
            raise
        except BaseException as e:
            status, err = 1, type(e).__name__
        # what the interpreter does on its way out
        out = sys.stdout
        try:
            if out is not None and not out.closed:
                out.flush()
        except BaseException:
            status = 120 if status == 0 else status
        err = err or sys.stderr.getvalue()[-200:]
    finally:
        sys.stdout, sys.stderr = old
    return status & 0xFF, bytes(raw.got), err, raw.failed


def cli_text(text):
    with simio.Disk() as d:
        fn = d.put("d.pddl", text.encode())
        status, out, err, _ = invoke([fn], None, {})
    if status:
        return ["err", "exit", f"{status} {err}"]
    return ["ok", out.decode()[:-1] if out.endswith(b"\n") else out.decode(), None]


def gen(rng, i, tier, hs):
    dm = G.gen_domain(rng, size=rng.choice([1, 1, 2]))
    pm = G.gen_problem(rng, dm)
    texts = [G.render(dm, G.Style(rng)), G.render(pm, G.Style(rng)), G.render(G.gen_plan(rng, dm, pm), G.Style(rng))]
    n = rng.choice([1, 2, 2, 3, 3, 3])
    files = []
    bad = rng.randrange(n) if rng.random() < 0.35 else -1
    truth = "fits"
    if bad < 0 and n > 1 and rng.random() < 0.35:  # well-formed files that plainly do not belong together
        k, t = misfit(rng, dm, pm, n)
        if k:
            texts[k], truth = t, k
    for k in range(n):
        f = {"text": texts[k], "io": None, "missing": False}
        if k == bad:
            r = rng.random()
            if r < 0.45:
                f["text"] = rng.choice([G.break_text, W.thin_section, W.rename_tokens, W.drop_section])(rng, texts[k])
            elif r < 0.55 and k:
                dm2 = G.gen_domain(rng, size=1)
                pm2 = G.gen_problem(rng, dm2)
                pm2["domain"] = dm["name"]
                f["text"] = G.render(pm2 if k == 1 else G.gen_plan(rng, dm2, pm2), G.Style(rng))
            elif r < 0.85:
                f["io"] = simio.gen_hard(rng, len(texts[k].encode()))
            elif r < 0.92:
                f["missing"] = True
            else:
                f["text"] = ""
        elif rng.random() < 0.3:
            f["io"] = simio.gen_soft(rng)
        files.append(f)
    out = None
    r = rng.random()
    if r < 0.25:
        out = {"writes": [rng.choice([1, 3, 17, 100, 4096]) for _ in range(3)] + (["EINTR"] if rng.random() < 0.5 else [])}
    elif r < 0.6:
        size = sum(len(f["text"]) for f in files)
        out = {"cap": rng.choice([0, 1, rng.randrange(size + 2), rng.randrange(size + 2), 2 * size + 200]),
               "error": rng.choice(["ENOSPC", "EPIPE", "EIO", "EDQUOT"])}
        if rng.random() < 0.5:  # somewhere in the text printed for one of the files
            out["at"] = [rng.randrange(n), rng.choice([0, 0.5, 0.99, 1])]
        if rng.random() < 0.5:
            out["writes"] = [rng.choice([1, 7, 64]), 300]
    mode = rng.choice(["block", "block", "line", "raw"])
    if mode != "block":
        out = dict(out or {}, mode=mode)
        if mode == "raw":
            out.pop("writes", None)
    if out and "cap" in out and rng.random() < 0.25:
        out["once"] = True
    return {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "files": files, "out": out, "quiet": rng.random() < 0.25,
            "entry": rng.choice(["script", "script", "module"]), "truth": truth if bad < 0 else None}


def misfit(rng, dm, pm, n):
    """(which file, its text): a problem or plan that does not fit, whatever one thinks of the rest of PDDL."""
    k = rng.randrange(1, n)
    if k == 1:
        m = copy.deepcopy(pm)
        w = rng.choice(["name", "reqs", "type", "type"])
        if w == "name":
            m["domain"] += "-other"
        elif w == "reqs":
            rest = [r for r in G.ALL_REQS if r not in dm["reqs"]]
            m["reqs"] = m["reqs"] + [rng.choice(rest)]
            rng.shuffle(m["reqs"])
        else:
            m["objects"].insert(rng.randint(0, len(m["objects"])), ["onew", "undeclared-type"])
        return 1, G.render(m, G.Style(rng))
    m = G.gen_plan(rng, dm, pm)
    for _ in range(3):
        if len(m["steps"]) < 3:
            m["steps"] += G.gen_plan(rng, dm, pm)["steps"]
    if not m["steps"]:
        m["steps"] = [["no-such-action"]]
        return 2, G.render(m, G.Style(rng))
    i = rng.randrange(len(m["steps"]))
    s = list(m["steps"][i])
    m["steps"][i] = s
    w = rng.choice(["action", "more", "fewer", "object", "object", "domain_object"])
    if w == "more":
        s.append(pm["objects"][0][0])
    elif w == "fewer" and len(s) > 1:
        del s[rng.randrange(1, len(s))]
    elif w == "object" and len(s) > 1:
        s[rng.randrange(1, len(s))] = "no-such-object"
    elif w == "domain_object" and len(s) > 1:  # a name the domain has, but for something else
        s[rng.randrange(1, len(s))] = dm["actions"][0][0]
        if dm["actions"][0][0] in [o for o, _ in pm["objects"] + dm["constants"]]:
            s.append(s[1])
    else:
        s[0] = "no-such-action"
    return 2, G.render(m, G.Style(rng))


def expected(files, salt, truth):
    """Library calls one by one on pristine parsers: how many files are accepted, and their texts."""
    seams.SALT[0] = salt
    why = None
    texts, objs = [], []
    kinds = ["domain", "problem", "plan"]
    for k, f in enumerate(files):
        hard = f["missing"] or (f["io"] or {}).get("open") or (f["io"] or {}).get("fail_at") is not None
        if hard:
            return texts, False, why
        try:
            o = W.parser(kinds[k])(f["text"].replace("\r\n", "\n").replace("\r", "\n"))
        except Exception:
            return texts, False, why
        try:
            if k == 1:
                o.check(objs[0])
            elif k == 2:
                o.check(objs[0], objs[1])
        except Exception as e:
            if truth == "fits":
                why = f"file {k} fits those before it, but is refused: {e}"
            return texts, False, why
        if truth == k:
            return texts, False, None
        texts.append(str(o))
        objs.append(o)
    return texts, True, why


def stage(case):
    seams.SALT[0] = case["salt"]
    st, o = in_child(expected, case["files"], case["salt"], case["truth"])
    if st != "ok":
        if st == "harness":
            raise RuntimeError(o)
        return {"viol": None, "stats": {"ref_stuck": 1}, "digest": "ref"}
    texts, ok, misjudged = o
    stats = {}
    outplan = dict(case["out"] or {})
    if "at" in outplan and texts:
        k, frac = outplan["at"]
        k %= len(texts)
        outplan["cap"] = sum(len(t.encode()) + 1 for t in texts[:k]) + int(frac * (len(texts[k].encode()) + 1))
    sim = kernel.Sim(budget=sum(W.budget_for(f["text"]) for f in case["files"]) * 3)
    viol = None
    with simio.Disk() as d:
        argv = ["-q"] if case["quiet"] else []
        for k, f in enumerate(case["files"]):
            fn = d.put(f"f{k}.pddl", f["text"].encode())
            if f["missing"]:
                os.unlink(fn)
            if f["io"]:
                d.plan(fn, f["io"])
            argv.append(fn)
        with sim:
            try:
                status, out, err, failed = sim.call_main(lambda: invoke(argv, outplan, stats, case["entry"]))
            except (kernel.SimStop, kernel.SimDeadlock) as e:
                status, out, err, failed = None, b"", "", False
                viol = ["stuck", f"the command never ended ({e})"]
        for k, v in d.stats.items():
            stats[k] = stats.get(k, 0) + v
        read_faults = sum(v for k, v in d.stats.items() if k.startswith(("fault:read_", "fault:open_")))
    planned = sum(1 for f in case["files"] if (f["io"] or {}).get("open") or (f["io"] or {}).get("fail_at") is not None)
    want = b"" if case["quiet"] else "".join(t + "\n" for t in texts).encode()
    # a file that is plainly not there may be refused before anything is read
    early = any(f["missing"] for f in case["files"])
    # after an error that passes, a buffered stream may still have delivered everything: then either status is right
    delivered_all = not failed
    recovered = failed and out == want
    stats["steps"] = sim.step
    stats["probe:accepted"] = int(ok)
    stats["probe:output_lost"] = int(not delivered_all)
    log = {"argv": [os.path.basename(a) for a in argv], "status": status, "out": len(out), "err": err.replace(d.dir, "DIR")[:200],
           "files_accepted": len(texts), "all_ok": ok}
    stats["probe:misfit"] = int(case["truth"] not in ("fits", None))
    if viol is None:
        if misjudged:
            viol = ["misjudged", misjudged]
        elif planned and ok is False and read_faults == 0 and len(texts) == len(case["files"]) - 1 and status == 0:
            # a planned read fault was never reached (the file was not read through the seam): cannot judge
            viol = None
        elif status == 0 and not (ok and (delivered_all or recovered)):
            why = "a file was not acceptable" if not ok else "the output did not all reach stdout"
            viol = ["false_success", f"exit status 0 although {why}; accepted {len(texts)} of {len(case['files'])} files"]
        elif status != 0 and ok and delivered_all:
            viol = ["false_failure", f"exit status {status} although everything is in order: {err}"]
        elif case["quiet"] and out:
            viol = ["noise", f"-q printed {out[:200]!r}"]
        elif status == 0 and out != want:
            viol = ["output", f"printed\n{out.decode('utf-8', 'replace')}\nbut the formatted texts are\n{want.decode()}"]
        elif status != 0 and not want.startswith(out):
            viol = ["output", f"printed something else than the accepted files before failing:\n{out.decode('utf-8', 'replace')}\n"
                              f"formatted texts:\n{want.decode()}"]
        elif status != 0 and delivered_all and out != want and not early:
            viol = ["output_lost", f"status {status}: only {len(out)} of {len(want)} bytes of the accepted files were printed"]
    return {"viol": viol, "stats": stats, "log": log, "digest": runner.digest([log, viol, out.hex()]),
            "sig": runner.digest([case["files"], case["out"], case["quiet"]])}


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=60)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    return out[1]


def shrink(case):
    fs = case["files"]
    if len(fs) > 1:
        yield dict(case, files=fs[:-1])
    if case["out"]:
        yield dict(case, out=None)
        if case["out"].get("writes") and "cap" in case["out"]:
            yield dict(case, out={k: v for k, v in case["out"].items() if k != "writes"})
    if case["quiet"]:
        yield dict(case, quiet=False)
    if case["entry"] != "script":
        yield dict(case, entry="script")
    for k, f in enumerate(fs):
        if f["io"]:
            yield dict(case, files=fs[:k] + [dict(f, io=None)] + fs[k + 1:])
    for k, f in enumerate(fs):
        for t in W.shrink_text(f["text"]) if case["truth"] is None else ():
            yield dict(case, files=fs[:k] + [dict(f, text=t)] + fs[k + 1:])
