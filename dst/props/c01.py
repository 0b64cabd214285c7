"""C01: history independence of parser objects, with aborted parses in the history."""
import copy

from .. import kernel, runner, seams
from ..work import *  # noqa
from .. import work as W

HS = 2
RUNS = {"quick": (2200, 150), "thorough": (60000, 3000)}
RULE = ("one case = one parser object (sometimes two of a kind), 2-7 related texts (valid, section-dropped, thinned, renamed, "
        "damaged) handled one after another, some parses aborted at a chosen library call; every outcome compared with a "
        "brand-new parser in a pristine forked process. Non-trivial: at least one earlier text was parsed before the one compared")
MEASURE = "distinct sequences of (outcome kind, steps, abort point) over a run"
REAL = W.REAL
STUB = ["hash() of the library's modules is salted (seam)", "threading locks are simulated"]


def gen(rng, i, tier, hs):
    kind = rng.choice(["domain", "domain", "domain", "problem", "problem", "plan"])
    base = W.variants(rng, W.gen_text(rng, kind), rng.randint(1, 4))
    if rng.random() < 0.4:
        base += W.variants(rng, W.gen_text(rng, kind), 1)
    ops = []
    two = rng.random() < 0.25
    pf = rng.choice([0, 0.2, 0.5])
    for _ in range(rng.randint(2, 7)):
        t = rng.choice(base)
        ops.append({"p": int(two and rng.random() < 0.4), "text": t,
                    "fault": W.gen_fault(rng, t) if rng.random() < pf else None})
    if rng.random() < 0.02:
        ops.append({"p": "new", "text": rng.choice(base), "fault": None})
    return {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "kind": kind, "ops": ops}


def stage(case):
    seams.SALT[0] = case["salt"]
    refs = W.Refs(case["salt"])
    for op in case["ops"]:
        refs(case["kind"], op["text"])
    st, log, viol = {}, [], None
    sim = kernel.Sim()
    with sim:
        for n, op in enumerate(case["ops"]):
            p = W.new_parser(case["kind"]) if op["p"] == "new" else W.parser(case["kind"], op["p"])
            ref = refs(case["kind"], op["text"])
            if ref[0] == "stuck":
                log.append(["ref stuck"])
                continue
            try:
                got = sim.call_main(lambda: W.outcome(lambda: p(W.fresh(op["text"]))), op["fault"], W.budget_for(op["text"]))
            except (kernel.SimStop, kernel.SimDeadlock) as e:
                viol = ["stuck", f"op {n}: the call never ended ({e}); alone it gives {W.short(ref)}"]
                break
            f = sim.last_fault
            fired = bool(f and f.fired)
            log.append([got[0], got[1] if got[0] == "err" else "", fired, f.n if f else 0, sim.step])
            if fired:
                st["fault:" + f.kind] = st.get("fault:" + f.kind, 0) + 1
                if got[0] == "err":
                    continue
            d = W.differ(got, ref)
            st["compared"] = st.get("compared", 0) + 1
            if d:
                prev = ["interrupted" if l[2] else l[0] for l in log[:-1]]
                viol = ["history", f"op {n} on parser {op['p']} after {prev}: {d}\ntext: {op['text']}"]
                break
    for k, v in (("probe:after_failure", any(l[0] == "err" for l in log[:-1])),
                 ("probe:after_interrupt", any(l[2] for l in log[:-1] if len(l) > 2)),
                 ("probe:accepted_after_failure", any(a[0] == "err" and b[0] == "ok" for a, b in zip(log, log[1:])))):
        st[k] = int(v)
    st["steps"] = sim.step
    st["parses"] = len(log)
    return {"viol": viol, "stats": st, "log": log, "sig": sim.sig, "digest": runner.digest([log, viol, sim.sig]),
            "nontrivial": len(log) > 1}


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=60)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    return out[1]


def shrink(case):
    for ops in W.without(case["ops"]):
        yield dict(case, ops=ops)
    for i, op in enumerate(case["ops"]):
        if op["fault"]:
            yield dict(case, ops=case["ops"][:i] + [dict(op, fault=None)] + case["ops"][i + 1:])
            if op["fault"]["at"] > 1:
                yield dict(case, ops=case["ops"][:i] + [dict(op, fault=dict(op["fault"], at=op["fault"]["at"] // 2))] + case["ops"][i + 1:])
    texts = sorted({op["text"] for op in case["ops"]}, key=len, reverse=True)
    for t in texts:
        for u in W.shrink_text(t):
            yield dict(case, ops=[dict(op, text=u if op["text"] == t else op["text"]) for op in case["ops"]])
