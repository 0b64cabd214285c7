"""C02: concurrent parsing."""
import sys

from .. import kernel, runner, seams, simio
from ..zygote import in_child
from ..work import *  # noqa
from .. import work as W

HS = 2
RUNS = {"quick": (750, 150), "thorough": (40000, 3000)}
RULE = ("one case = 2-4 threads with 1-3 parses each (related or unrelated texts, valid or damaged), through shared parser objects, "
        "a second object of the same kind, new objects, or the file helpers (short reads), warm or as the first calls of a cold import; "
        "the scheduler may switch threads at every library line, bytecode, or also inside the grammar engine; some parses are aborted. "
        "Every outcome, and one further parse per object used, is compared with the same text alone in a pristine process. "
        "Non-trivial: at least one preemption or lock wait happened")
MEASURE = "distinct hashes of the sequence (thread, line or bytecode) of a run"
REAL = W.REAL + ["the import system (cold cases)"]
STUB = ["thread scheduling and locks (simulator)", "raw disk reads of the file helpers", "hash() salted (seam)"]


def gen(rng, i, tier, hs):
    kinds = rng.choice([["domain"], ["domain"], ["domain", "problem"], ["problem"], ["plan"], ["domain", "problem", "plan"]])
    texts = {}
    for k in set(kinds):
        texts[k] = W.variants(rng, W.gen_text(rng, k), rng.randint(0, 2))
        if rng.random() < 0.5:
            texts[k].append(W.gen_text(rng, k))
    cold = rng.random() < 0.12
    mode = rng.choice(["shared", "shared", "two", "two", "new", "file", "mixed"])
    pf = rng.choice([0, 0, 0, 0.3])
    threads = []
    for _ in range(rng.choice([2, 2, 2, 3, 4]) if not cold else 2):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3]) if not cold else 1):
            k = rng.choice(kinds)
            t = rng.choice(texts[k])
            m = mode if mode != "mixed" else rng.choice(["shared", "two", "new", "file"])
            if cold:
                m = rng.choice(["new", "file"])
            op = {"kind": k, "how": m, "p": rng.randrange(2), "text": t, "fault": None}
            if m == "file" and rng.random() < 0.5:
                op["io"] = simio.gen_soft(rng)
            if rng.random() < pf:
                op["fault"] = W.gen_fault(rng, t)
            ops.append(op)
        threads.append(ops)
    if rng.random() < 0.15:  # the same text everywhere
        t0 = threads[0][0]
        threads = [[dict(t0, how=op["how"], p=op["p"], io=None) for op in ops] for ops in threads]
    gran = rng.choice(["line", "line", "line", "instr", "lark"])
    if gran == "lark" and (cold or any(op["how"] in ("new", "file") for ops in threads for op in ops)) and rng.random() < 0.9:
        gran = "line"  # building a parser takes a million grammar-engine steps
    return {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "threads": threads, "cold": cold, "gran": gran,
            "policy": W.gen_policy(rng), "sseed": rng.randrange(1 << 30)}


def text_as_read(op):
    return op["text"].replace("\r\n", "\n").replace("\r", "\n") if op["how"] == "file" else op["text"]


def the_call(op, files):
    k = op["kind"]
    if op["how"] == "file":
        import pddl
        return getattr(pddl, "parse_" + k)(files[id(op)])
    if op["how"] == "new":
        return W.new_parser(k)(W.fresh(op["text"]))
    return W.parser(k, 0 if op["how"] == "shared" else op["p"])(W.fresh(op["text"]))


def stage(case):
    seams.SALT[0] = case["salt"]
    refs = W.Refs(case["salt"], case["gran"])
    st, viol = {}, None
    total = 0
    for ops in case["threads"]:
        for op in ops:
            if refs(op["kind"], text_as_read(op))[0] == "stuck":
                return {"viol": None, "stats": {"ref_stuck": 1}, "digest": "ref", "nontrivial": False}
            total += refs.steps[op["kind"], text_as_read(op)]
            if op["how"] in ("file", "new") and case["gran"] == "lark":
                total += 150_000  # building a parser
    budget = 3 * sum(W.budget_for(op["text"]) for ops in case["threads"] for op in ops) * W.SCALE[case["gran"]] + 6_000_000
    with simio.Disk() as disk:
        files = {}
        for a, ops in enumerate(case["threads"]):
            for b, op in enumerate(ops):
                if op["how"] == "file":
                    fn = disk.put(f"t{a}-{b}.pddl", op["text"].encode("utf-8", "surrogateescape"))
                    files[id(op)] = fn
                    if op.get("io"):
                        disk.plan(fn, op["io"])
        if case["cold"]:
            seams.purge()
        sim = W.sim_for(case, total, budget)
        with sim:
            def body(ops):
                def run(t):
                    res = []
                    for op in ops:
                        t.fault = kernel.Fault(**op["fault"]) if op["fault"] else None
                        got = W.outcome(lambda: the_call(op, files))
                        fired = bool(t.fault and t.fault.fired)
                        t.fault = None
                        res.append((got, fired))
                    return res
                return run
            failure = sim.run_threads([body(ops) for ops in case["threads"]])
        for k, v in disk.stats.items():
            st[k] = st.get(k, 0) + v
    W.sched_stats(sim, st)
    log = [["failure", failure], ["switches", len(sim.switch_log)]]
    if failure:
        who = [(t.idx, t.state, len(t.result or [])) for t in sim.threads]
        viol = ["blocked" if failure == "deadlock" else "endless", f"{failure} after {sim.step} steps; threads: {who}"]
    else:
        for a, (ops, t) in enumerate(zip(case["threads"], sim.threads)):
            if isinstance(t.result, tuple):
                raise RuntimeError(f"thread failed: {t.result}")
            for b, (op, (got, fired)) in enumerate(zip(ops, t.result)):
                log.append([a, b, got[0], got[1] if got[0] == "err" else "", fired])
                if fired and got[0] == "err":
                    continue
                st["compared"] = st.get("compared", 0) + 1
                d = W.differ(got, refs(op["kind"], text_as_read(op)))
                if d and not viol:
                    viol = ["mixed_up", f"thread {a}, call {b} ({op['how']}, {op['kind']}): {d}\ntext: {op['text']}"]
        if viol is None and not case["cold"]:
            sim2 = kernel.Sim()
            with sim2:
                done = set()
                for ops in case["threads"]:
                    for op in ops:
                        key = (op["kind"], op["how"], op["p"])
                        if op["how"] in ("new", "file") or key in done:
                            continue
                        done.add(key)
                        try:
                            got = sim2.call_main(lambda: W.outcome(lambda: the_call(op, files)), None, W.budget_for(op["text"]))
                        except (kernel.SimStop, kernel.SimDeadlock) as e:
                            viol = ["blocked", f"afterwards, a parse on the same object never ends ({e})"]
                            break
                        d = W.differ(got, refs(op["kind"], op["text"]))
                        if d:
                            viol = ["mixed_up", f"afterwards, on the same object: {d}\ntext: {op['text']}"]
                    if viol:
                        break
    st["probe:cold_import"] = int(case["cold"])
    st["probe:waited_for_lock"] = int(sim.blocked_waits > 0)
    return {"viol": viol, "stats": st, "log": log, "sig": sim.sig, "switches": sim.switch_log,
            "digest": runner.digest([log, viol, sim.sig, sim.step]),
            "nontrivial": bool(sim.switch_log or sim.blocked_waits)}


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=120)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    return out[1]


def shrink(case):
    def cands():
        th = case["threads"]
        if len(th) > 1:
            for a in range(len(th)):
                yield dict(case, threads=th[:a] + th[a + 1:])
        for a, ops in enumerate(th):
            if len(ops) > 1:
                for b in range(len(ops)):
                    yield dict(case, threads=th[:a] + [ops[:b] + ops[b + 1:]] + th[a + 1:])
        if case["cold"]:
            yield dict(case, cold=False)
        if case["gran"] != "line":
            yield dict(case, gran="line")
        for a, ops in enumerate(th):
            for b, op in enumerate(ops):
                for f in ("fault", "io"):
                    if op.get(f):
                        yield dict(case, threads=th[:a] + [ops[:b] + [dict(op, **{f: None})] + ops[b + 1:]] + th[a + 1:])
        for t in sorted({op["text"] for ops in th for op in ops}, key=len, reverse=True):
            for u in W.shrink_text(t):
                yield dict(case, threads=[[dict(op, text=u) if op["text"] == t else op for op in ops] for ops in th])
    for c in cands():
        yield from W.schedules(c)
