"""C10: failed and interrupted operations leave every object as it was."""
from .. import kernel, ops as O, runner, seams
from ..zygote import in_child
from ..work import *  # noqa
from .. import work as W

HS = 2
RUNS = {"quick": (1900, 150), "thorough": (30000, 3000)}
RULE = ("one case = a pool of all objects of two domains, two problems and a plan, and a history of 2-9 operations (34 reading kinds and "
        "attaching a domain), many with arguments that do not fit, many aborted (interrupt, memory, stack) at a seeded library call inside "
        "the operation; after every failure value, hash, set membership and attachment of every object must be as before, the aborted "
        "operation is repeated and its result compared with a twin process that had no faults. Non-trivial: an operation failed or was "
        "aborted")
MEASURE = "distinct (operation, outcome, abort point) sequences"
REAL = W.REAL
STUB = ["hash() salted (seam)"]
NAMES = O.READ + ["attach"] * 8 + ["check_problem", "check_plan", "action_inst", "formula_inst", "build", "pickle", "deepcopy"] * 2


def gen(rng, i, tier, hs):
    names = NAMES if rng.random() < 0.7 else rng.sample(NAMES, 4)
    ops = []
    for _ in range(rng.randint(2, 9)):
        op = O.gen_op(rng, names)
        if rng.random() < 0.6:
            op["fault"] = {"kind": rng.choice(["KeyboardInterrupt", "MemoryError", "RecursionError"]),
                           "at": int(60 ** rng.random()), "where": rng.choice(["2", "3", "3"])}
        ops.append(op)
    return {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "texts": O.gen_texts(rng), "ops": ops, "warm": rng.random() < 0.5}


def fingerprint_of(op, e, before):
    return W.outcome(lambda: O.do(op, e))


def twin(e, ops):
    sim = kernel.Sim(budget=30_000_000)
    out = []
    with sim:
        for op in ops:
            out.append(sim.call_main(lambda: W.outcome(lambda: O.do(op, e))))
    return out


def look(e):
    """The pool's value; in a child unless its caches are warm anyway: looking must not warm them."""
    return ("ok", O.snap(e)) if e.set is not None else in_child(O.snap, e)


def stage(case):
    seams.SALT[0] = case["salt"]
    e = O.Env(case["texts"])
    if not O.usable(e):
        return {"viol": None, "stats": {"unusable": 1}, "digest": "unusable", "nontrivial": False}
    if case["warm"]:
        e.warm()
    s, refs = in_child(twin, e, case["ops"])
    if s != "ok":
        if s == "harness" and "SimStop" not in str(refs):
            raise RuntimeError(refs)
        return {"viol": None, "stats": {"ref_stuck": 1}, "digest": "ref", "nontrivial": False}
    s, now = look(e)
    st, log, viol = {}, [], None
    sim = kernel.Sim()
    with sim:
        for n, op in enumerate(case["ops"]):
            tries = [op.get("fault"), None] if op.get("fault") else [None]
            for k, fault in enumerate(tries):
                try:
                    got = sim.call_main(lambda: W.outcome(lambda: O.do(op, e)), fault, 3_000_000)
                except (kernel.SimStop, kernel.SimDeadlock) as x:
                    viol = ["stuck", f"operation {n} ({op['op']}) never ended ({x})"]
                    break
                f = sim.last_fault
                fired = bool(f and f.fired)
                log.append([op["op"], got[0], got[1] if got[0] == "err" else "", fired])
                st["failed"] = st.get("failed", 0) + (got[0] == "err" and not fired)
                if fired:
                    st["fault:" + f.kind] = st.get("fault:" + f.kind, 0) + 1
                if got[0] == "err" or op["op"] != "attach" or n % 3 == 0:
                    s, after = look(e)
                    if s != "ok":
                        viol = ["broken", f"after operation {n} ({op['op']}, {log[-1]}) the objects cannot be looked at: {str(after)[-600:]}"]
                        break
                    if op["op"] != "attach" or got[0] == "err":
                        d = O.snap_diff(now, after)
                        if d:
                            viol = ["half_done", f"operation {n} ({op['op']}) failed with {W.short(got)}{' (injected)' if fired else ''}, "
                                                 f"yet {d}"]
                            break
                    else:
                        now = after
                elif op["op"] == "attach":
                    s, now = look(e)
                if fired and got[0] == "err":
                    continue  # next: the same again without the fault
                d = W.differ(got, refs[n])
                if d:
                    viol = ["later", f"operation {n} ({op['op']}) after {log[:-1]}: {d}"]
                break
            if viol:
                break
    st["steps"] = sim.step
    st["operations"] = len(log)
    return {"viol": viol, "stats": st, "log": log, "sig": runner.digest([log, sim.sig]), "digest": runner.digest([log, viol, sim.sig]),
            "nontrivial": any(l[1] == "err" for l in log)}


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=90)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    return out[1]


def shrink(case):
    for ops in W.without(case["ops"]):
        if ops:
            yield dict(case, ops=ops)
    if case["warm"]:
        yield dict(case, warm=False)
    for i, op in enumerate(case["ops"]):
        if op.get("fault"):
            yield dict(case, ops=case["ops"][:i] + [dict(op, fault=None)] + case["ops"][i + 1:])
            if op["fault"]["at"] > 1:
                f = dict(op["fault"], at=op["fault"]["at"] // 2)
                yield dict(case, ops=case["ops"][:i] + [dict(op, fault=f)] + case["ops"][i + 1:])
    t = case["texts"]
    for k in t:
        for u in W.shrink_text(t[k]):
            yield dict(case, texts=dict(t, **{k: u}))
