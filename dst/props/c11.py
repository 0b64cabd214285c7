"""C11: reading operations on shared objects, alone and concurrently."""
from .. import kernel, ops as O, runner, seams
from ..zygote import in_child
from ..work import *  # noqa
from .. import work as W

HS = 2
RUNS = {"quick": (2400, 150), "thorough": (30000, 3000)}
RULE = ("one case = a pool of all objects of two domains, two problems and a plan; 1-4 threads perform 2-10 reading operations each "
        "(33 kinds; sometimes all the same ones, on the same cold objects) under a seeded schedule at line or bytecode granularity, with hash caches cold or warm; every result is compared with "
        "the same operation alone in a forked pristine process, and value, hash and set membership of every object with what they were. "
        "Non-trivial: at least two operations, or a preemption, happened")
MEASURE = "distinct hashes of the sequence (thread, line or bytecode) of a run"
REAL = W.REAL
STUB = ["thread scheduling and locks (simulator)", "hash() salted (seam)"]


TIGHT = ["hash", "hash", "inset", "dedupe", "eq", "str", "attrs", "check_problem", "check_plan", "action_inst", "formula_inst"]


def gen(rng, i, tier, hs):
    if rng.random() < 0.3:  # several threads do the same few things to the same cold objects
        hot = [rng.randrange(1 << 20) for _ in range(rng.choice([1, 1, 2, 3]))]
        names = rng.sample(TIGHT, rng.choice([1, 2, 2]))
        ops = [dict(O.gen_op(rng, names), a=rng.choice(hot), b=rng.choice(hot)) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.7:  # all of one kind
            ty = rng.randrange(1 << 20)
            for op in ops:
                op["ty"] = ty
        return {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "texts": O.gen_texts(rng),
                "threads": [ops[:] for _ in range(rng.choice([2, 2, 3]))], "warm": False, "gran": "instr",
                "policy": W.gen_policy(rng), "sseed": rng.randrange(1 << 30)}
    n = rng.choice([1, 2, 2, 3, 3, 4])
    names = O.READ if rng.random() < 0.6 else rng.sample(O.READ, 4)
    hot = [rng.randrange(1 << 20) for _ in range(2)] if rng.random() < 0.5 else None
    threads = []
    for _ in range(n):
        ops = [O.gen_op(rng, names) for _ in range(rng.randint(2, 10))]
        for op in ops:
            if hot:  # several threads on the same few objects
                op["a"], op["b"] = rng.choice(hot), rng.choice(hot)
        threads.append(ops)
    return {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "texts": O.gen_texts(rng), "threads": threads,
            "warm": rng.random() < 0.5, "gran": rng.choice(["line", "line", "instr"]), "policy": W.gen_policy(rng),
            "sseed": rng.randrange(1 << 30)}


def alone(e, ops, gran):
    sim = kernel.Sim(budget=30_000_000, gran=gran)
    out = []
    with sim:
        for op in ops:
            out.append(sim.call_main(lambda: W.outcome(lambda: O.do(op, e))))
    return out, sim.step


def stage(case):
    seams.SALT[0] = case["salt"]
    e = O.Env(case["texts"])
    if not O.usable(e):
        return {"viol": None, "stats": {"unusable": 1}, "digest": "unusable", "nontrivial": False}
    if case["warm"]:
        e.warm()
    st_, before = in_child(O.snap, e)
    if st_ != "ok":
        raise RuntimeError(before)
    refs, total = [], 0
    for ops in case["threads"]:
        st_, r = in_child(alone, e, ops, case["gran"])
        if st_ != "ok":
            if st_ == "harness" and "SimStop" not in str(r):
                raise RuntimeError(r)
            return {"viol": None, "stats": {"ref_stuck": 1}, "digest": "ref", "nontrivial": False}
        refs.append(r[0])
        total += r[1]
    sim = W.sim_for(case, total, total * 3 + 200_000)
    viol, st = None, {}
    with sim:
        def body(ops):
            return lambda t: [W.outcome(lambda: O.do(op, e)) for op in ops]
        failure = sim.run_threads([body(ops) for ops in case["threads"]])
    W.sched_stats(sim, st)
    log = [["failure", failure]]
    if failure:
        viol = ["blocked", f"{failure} after {sim.step} steps (alone: {total})"]
    else:
        for a, (ops, t) in enumerate(zip(case["threads"], sim.threads)):
            if isinstance(t.result, tuple):
                raise RuntimeError(t.result)
            for b, (op, got) in enumerate(zip(ops, t.result)):
                log.append([a, op["op"], got[0], got[1] if got[0] == "err" else ""])
                st["probe:" + op["op"]] = st.get("probe:" + op["op"], 0) + 1
                d = W.differ(got, refs[a][b])
                if d and not viol:
                    viol = ["result", f"thread {a}, operation {b} ({op['op']}): {d}"]
        st["operations"] = sum(map(len, case["threads"]))
        if not viol:
            d = O.snap_diff(before, O.snap(e))
            if d:
                viol = ["changed", f"after {[[op['op'] for op in ops] for ops in case['threads']]}: {d}"]
    return {"viol": viol, "stats": st, "log": log, "sig": sim.sig, "switches": sim.switch_log,
            "digest": runner.digest([log, viol, sim.sig, sim.step]), "nontrivial": True}


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=90)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    return out[1]


def shrink(case):
    def cands():
        th = case["threads"]
        if len(th) > 1:
            for a in range(len(th)):
                yield dict(case, threads=th[:a] + th[a + 1:])
        for a, ops in enumerate(th):
            if len(ops) > 1:
                for o in W.without(ops):
                    if o:
                        yield dict(case, threads=th[:a] + [o] + th[a + 1:])
        if case["warm"]:
            yield dict(case, warm=False)
        if case["gran"] != "line":
            yield dict(case, gran="line")
    for c in cands():
        yield from W.schedules(c)
