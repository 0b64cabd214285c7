"""C03: no process-wide setting stays changed."""
import copy
import os
import pickle
import random
import sys

from .. import big as B
from .. import gen as G
from .. import kernel, runner, seams, simio, state
from ..work import *  # noqa
from .. import work as W

HS = 1
RUNS = {"quick": (1200, 150), "thorough": (30000, 3000)}
RULE = ("one case = a process whose settings were given values of the program's own (limits, streams, filters, gc, decimal, locale, signal "
        "handlers, directory, environment, random state, logging, umask), then 1-6 library calls and in-process command runs, one after "
        "another on the main thread or overlapping in 2-3 simulated threads (half of these: one entry point entered by all), on valid and damaged texts, with I/O faults and aborts; "
        "about 40 settings are compared before and after. Non-trivial: any")
MEASURE = "distinct hashes of the executed (thread, line) sequence"
REAL = W.REAL + ["click 8", "the process's real settings"]
STUB = ["thread scheduling and locks", "raw disk reads", "standard output's raw layer", "hash() salted (seam)"]


def gen(rng, i, tier, hs):
    dm = G.gen_domain(rng, size=1)
    pm = G.gen_problem(rng, dm)
    texts = {"domain": G.render(dm, G.Style(rng)), "problem": G.render(pm, G.Style(rng)),
             "plan": G.render(G.gen_plan(rng, dm, pm), G.Style(rng))}
    cold = rng.random() < 0.1
    threaded = rng.random() < 0.45 and not cold
    ops = []
    for _ in range(rng.randint(1, 6) if not cold else rng.randint(1, 2)):
        how = rng.choice(["parser", "parser", "file", "file", "new", "cli", "cli", "cli", "model", "model", "api"])
        if cold and how in ("parser", "model", "api"):
            how = "file"
        k = rng.choice(["domain", "domain", "problem", "plan"])
        op = {"how": how, "kind": k, "r": rng.randrange(1 << 30), "fault": None}
        if how != "model":
            t = texts[k]
            if rng.random() < 0.5:
                t = rng.choice([G.break_text, W.thin_section, W.drop_section, W.rename_tokens])(rng, t)
            if rng.random() < 0.12:  # something large, deep or hopeless
                op["kind"], t = B.FAM[rng.choice(["number", "number", "word", "nest", "chain", "open", "nest_num", "init_num"])](
                    rng.choice([1, 4, 20, 60, 100]), rng)
            op["text"] = t
        if how in ("file", "cli") and rng.random() < 0.5:
            op["io"] = simio.gen_hard(rng, len(op["text"])) if rng.random() < 0.5 else simio.gen_soft(rng)
            if rng.random() < 0.2:
                op["io"] = {"missing": True}
            elif rng.random() < 0.2:
                op["io"] = {"raw": "latin"}
        if how == "cli":
            op["n"] = rng.choice([1, 2, 3])
            op["quiet"] = rng.random() < 0.5
            op["standalone"] = rng.random() < 0.5
            op["extra"] = rng.choice([None] * 6 + ["--help", "--nope"])
        if rng.random() < 0.3:
            n = 300
            op["fault"] = {"kind": rng.choice(["KeyboardInterrupt", "MemoryError", "RecursionError"]),
                           "at": int(n ** rng.random()) + 1, "where": "3" if how == "model" else "parse"}
        ops.append(op)
    c = {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "init": rng.randrange(1 << 30), "cold": cold, "texts": texts,
         "out": None if rng.random() < 0.7 else {"cap": rng.randrange(400), "error": "ENOSPC"},
         "threads": [ops], "gran": "line", "sseed": rng.randrange(1 << 30), "policy": {"p": 0}}
    if threaded:
        n = rng.choice([2, 2, 3])
        ths = [[] for _ in range(n)]
        for op in ops + copy.deepcopy(ops[:max(0, n - len(ops))]):
            ths[rng.randrange(n)].append(op)
        if rng.random() < 0.5:  # the same entry point entered by all of them: save / restore pairs that do not nest
            twin = rng.choice(ops)
            how = rng.choice(["file", "file", twin["how"]])
            if how == "file" and twin["how"] != "file":
                k = rng.choice(["domain", "problem", "plan"])
                twin = {"how": "file", "kind": k, "r": twin["r"], "fault": None, "text": texts[k]}
            ths = [[dict(copy.deepcopy(twin), r=rng.randrange(1 << 30))] for _ in range(n)]
            for t in ths:
                if rng.random() < 0.3:
                    t.insert(rng.randint(0, 1), copy.deepcopy(rng.choice(ops)))
                if rng.random() < 0.7:
                    for op in t:
                        op["fault"] = None
        c["threads"] = [t for t in ths if t]
        c["policy"] = W.gen_policy(rng)
        c["managed"] = True
    return c


def do(op, files, objs):
    k, how = op["kind"], op["how"]
    r = random.Random(op["r"])
    if how == "parser":
        return W.parser(k, r.randrange(2))(op["text"])
    if how == "new":
        return W.new_parser(k)(op["text"])
    if how == "file":
        import pddl
        return getattr(pddl, "parse_" + k)(files[id(op)][-1])
    if how == "cli":
        import pddl.__main__
        args = (["-q"] if op["quiet"] else []) + files[id(op)][:op["n"]]
        if op["extra"]:
            args.append(op["extra"])
        try:
            pddl.__main__.cli.main(args=args, prog_name="pddl", standalone_mode=op["standalone"])
        except SystemExit as e:
            return str(e.code)
        return None
    if how == "api":
        from pddl.core import Domain, Problem
        from pddl.logic import Constant, Predicate, Variable
        return [Domain("d", predicates=[Predicate("p", Variable("x", ["t"]))]) if r.random() < 0.5 else
                Problem("p", domain_name="d", goal=Predicate("p", Constant("1x"))), Constant("or")]
    o = objs.get(k)
    if o is None:
        return None
    f = r.choice(["str", "hash", "pickle", "copy", "eq", "check", "inst"])
    if f == "str":
        return str(o)
    if f == "hash":
        return [hash(x) for x in getattr(o, "actions", []) if k == "domain"]
    if f == "pickle":
        return pickle.loads(pickle.dumps(o)) == o
    if f == "copy":
        return copy.deepcopy(o) == o
    if f == "check" and k == "problem":
        return o.check(objs["domain"])
    if f in ("check", "inst") and k == "plan":
        return o.check(objs["domain"], objs["problem"]) if f == "check" else o.instantiate(objs["domain"])
    return o == objs.get(r.choice(["domain", "problem", "plan"]))


def stage(case):
    seams.SALT[0] = case["salt"]
    objs, st, viol = {}, {}, None
    for k in ("domain", "problem", "plan"):
        try:
            objs[k] = W.parser(k)(case["texts"][k])
        except Exception:
            objs[k] = None
    all_ops = [op for ops in case["threads"] for op in ops]
    with simio.Disk() as disk:
        files = {}
        for n, op in enumerate(all_ops):
            if op["how"] not in ("file", "cli"):
                continue
            fs = []
            order = ["domain", "problem", "plan"] if op["how"] == "cli" else [op["kind"]]
            for k in order:
                t = op["text"] if k == op["kind"] else case["texts"][k]
                b = t.encode("utf-8", "surrogateescape")
                io_ = (op.get("io") or {}) if k == op["kind"] else {}
                if io_.get("raw"):
                    b = b[:len(b) // 2] + b"\xff\xfe;\xe9\n" + b[len(b) // 2:]
                fn = disk.put(f"{n}-{k}.pddl", b)
                if io_.get("missing"):
                    os.unlink(fn)
                elif io_ and not io_.get("raw"):
                    disk.plan(fn, io_)
                fs.append(fn)
            files[id(op)] = fs
        if case["cold"]:
            seams.purge()
        out = simio.stdout_on(simio.OutRaw(case["out"], st))
        state.randomise(random.Random(case["init"]), disk.dir, out)
        budget = 8_000_000 + 4 * sum(W.budget_for(op.get("text", "") * 3) for op in all_ops)
        sim = W.sim_for(case, 400 * len(all_ops), budget)
        log = []
        before = state.snapshot()
        with sim:
            if case.get("managed"):
                def body(ops):
                    def run(t):
                        a = state.thread_local()
                        res = []
                        for op in ops:
                            t.fault = kernel.Fault(**op["fault"]) if op["fault"] else None
                            res.append(W.outcome(lambda: do(op, files, objs)))
                            t.fault = None
                        return res, state.diff(a, state.thread_local())
                    return run
                failure = sim.run_threads([body(ops) for ops in case["threads"]])
                if failure:
                    log.append(["failure", failure])
                else:
                    for t in sim.threads:
                        if t.result[0] == "harness":
                            raise RuntimeError(t.result)
                        log.append([[r[0], r[1] if r[0] == "err" else ""] for r in t.result[0]])
                        if t.result[1]:
                            viol = ["setting", f"in thread {t.idx}: {'; '.join(t.result[1])}"]
            else:
                for n, op in enumerate(case["threads"][0]):
                    try:
                        r = sim.call_main(lambda: W.outcome(lambda: do(op, files, objs)), op["fault"])
                    except (kernel.SimStop, kernel.SimDeadlock) as e:
                        log.append(["stuck", str(e)])
                        break
                    log.append([op["how"], r[0], r[1] if r[0] == "err" else ""])
        if viol is None and not (log and log[-1][0] in ("failure", "stuck")):
            after = state.snapshot(before)
            d = state.diff(before, after)
            if d:
                what = [(op["how"], op.get("quiet"), op["kind"], bool(op["fault"])) for op in all_ops]
                viol = ["setting:" + d[0].split(":")[0], f"after {what} ({log}): {'; '.join(d)}"]
        sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
        os.chdir("/")
        for k, v in disk.stats.items():
            st[k] = st.get(k, 0) + v
    W.sched_stats(sim, st)
    st["calls"] = len(all_ops)
    st["probe:overlapping"] = int(bool(case.get("managed")))
    st["probe:cold_import"] = int(case["cold"])
    for op in all_ops:
        st["probe:" + op["how"]] = st.get("probe:" + op["how"], 0) + 1
    return {"viol": viol, "stats": st, "log": log, "sig": sim.sig, "switches": sim.switch_log,
            "digest": runner.digest([log, viol and viol[0], sim.sig])}


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=90)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    return out[1]


def shrink(case):
    def cands():
        th = case["threads"]
        if case.get("managed"):
            yield dict(case, threads=[[op for t in th for op in t]], managed=False, policy={"p": 0})
        if len(th) > 1:
            for a in range(len(th)):
                yield dict(case, threads=th[:a] + th[a + 1:])
        for a, ops in enumerate(th):
            if len(ops) > 1:
                for b in range(len(ops)):
                    yield dict(case, threads=th[:a] + [ops[:b] + ops[b + 1:]] + th[a + 1:])
        if case["cold"]:
            yield dict(case, cold=False)
        if case["out"]:
            yield dict(case, out=None)
        for a, ops in enumerate(th):
            for b, op in enumerate(ops):
                for f in ("fault", "io", "extra"):
                    if op.get(f):
                        yield dict(case, threads=th[:a] + [ops[:b] + [dict(op, **{f: None})] + ops[b + 1:]] + th[a + 1:])
        for t in sorted({op.get("text", "") for ops in th for op in ops}, key=len, reverse=True):
            for u in W.shrink_text(t):
                yield dict(case, threads=[[dict(op, text=u) if op.get("text") == t else op for op in ops] for ops in th])
    for c in cands():
        yield from W.schedules(c) if c.get("managed") else [c]
