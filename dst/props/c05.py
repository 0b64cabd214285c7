"""C05: save as text, crash, restart (other hash seed), read back - any number of times."""
import os

from .. import fp as F
from .. import gen as G
from .. import kernel, runner, seams, simio
from ..work import *  # noqa
from .. import work as W

HS = 4
RUNS = {"quick": (2200, 150), "thorough": (60000, 3000)}
RULE = ("one case = one generated domain, problem or plan file and 2-4 process incarnations, each with its own hash seed and "
        "set-order salt; incarnation k reads what k-1 saved (parser object or file helper, file delivered in small pieces with EINTR) "
        "and saves it again. Non-trivial: the first read was accepted")
MEASURE = "distinct (first text, formatted text) pairs"
REAL = W.REAL
STUB = ["raw disk reads (simulated short reads and EINTR under the real buffered/text layers)", "hash() salted (seam)",
        "process crash: the incarnation's process really ends, only the saved bytes go on"]


def gen(rng, i, tier, hs):
    kind = rng.choice(["domain", "domain", "domain", "problem", "problem", "plan"])
    dm = G.gen_domain(rng)
    st = G.Style(rng)
    if kind == "domain":
        if rng.random() < 0.15:
            G.implicit_parents(rng, dm)
        t = G.render(dm, st)
    else:
        pm = G.gen_problem(rng, dm)
        t = G.render(pm if kind == "problem" else G.gen_plan(rng, dm, pm), st)
    n = rng.choice([2, 2, 3, 4])
    inc = [{"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "helper": rng.random() < 0.06,
            "io": simio.gen_soft(rng) if rng.random() < 0.5 else None} for _ in range(n)]
    return {"kind": kind, "text": t, "inc": inc}


def stage(kind, data, inc):
    """One incarnation: read the bytes on disk, describe, save."""
    seams.SALT[0] = inc["salt"]
    st = {}
    with simio.Disk() as d:
        fn = d.put("f.pddl", data)
        if inc["io"]:
            d.plan(fn, inc["io"])
        sim = kernel.Sim(budget=W.budget_for(data.decode("utf-8", "replace")) * 2)
        with sim:
            def go():
                try:
                    if inc["helper"]:
                        import pddl
                        o = getattr(pddl, "parse_" + kind)(fn)
                    else:
                        with open(fn) as f:
                            t = f.read()
                        o = W.parser(kind)(t)
                    s = str(o)
                except Exception as e:
                    return ["err", type(e).__name__, str(e)[:300]]
                return ["ok", F.norm_types(F.fp(o)), s]
            try:
                r = sim.call_main(go)
            except (kernel.SimStop, kernel.SimDeadlock) as e:
                r = ["stuck", str(e)]
        for k, v in d.stats.items():
            st[k] = v
    st["steps"] = sim.step
    return r, st


def run(case, pool):
    st, log, viol = {}, [], None
    data = case["text"].encode()
    first = text1 = None
    for k, inc in enumerate(case["inc"]):
        out = pool.call(inc["hs"], __name__, "stage", case["kind"], data, inc)
        if out[0] != "ok":
            viol = ["crash", f"incarnation {k}: {out}"]
            break
        r, s = out[1]
        for a, b in s.items():
            st[a] = st.get(a, 0) + b
        st["incarnations"] = st.get("incarnations", 0) + 1
        log.append([r[0], r[1] if r[0] == "err" else runner.digest(r[1:])])
        if r[0] == "stuck":
            if k:
                viol = ["stuck", f"incarnation {k} never finished reading what the previous one saved:\n{data.decode()}"]
            break
        if r[0] == "err":
            if k:
                viol = ["unreadable", f"incarnation {k} cannot read what the previous one saved: {r[1:]}\n{data.decode()}"]
            else:
                st["first_rejected"] = 1
            break
        if k == 0:
            first, text1 = r[1], r[2]
        else:
            d = F.diff(first, r[1])
            if d:
                viol = ["meaning", f"incarnation {k} reads something else: {d}\noriginal:\n{case['text']}\nsaved:\n{data.decode()}"]
                break
            if r[2] != text1:
                viol = ["text", f"incarnation {k} formats differently:\n{text1}\n---\n{r[2]}"]
                break
        data = r[2].encode()
    return {"viol": viol, "stats": st, "log": log, "digest": runner.digest([log, viol]), "sig": runner.digest(log),
            "nontrivial": first is not None}


def shrink(case):
    if len(case["inc"]) > 2:
        for k in range(1, len(case["inc"])):
            yield dict(case, inc=case["inc"][:k] + case["inc"][k + 1:])
    for k, c in enumerate(case["inc"]):
        if c["io"] or c["helper"]:
            yield dict(case, inc=case["inc"][:k] + [dict(c, io=None, helper=False)] + case["inc"][k + 1:])
    for t in W.shrink_text(case["text"]):
        yield dict(case, text=t)
