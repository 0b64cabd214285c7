"""C15: what the program no longer uses is released: a process that lives long does not grow."""
import copy
import gc
import os
import pickle
import random
import re
from collections import Counter

from .. import gen as G
from .. import kernel, ops as O, runner, seams, simio
from ..work import *  # noqa
from .. import work as W

HS = 2
RUNS = {"quick": (450, 150), "thorough": (20000, 3000)}
RULE = ("one case = a history of 1-8 uses of the library (parses with parsers that live on or not, reading files, commands, operations on objects "
        "that live on, on new ones, or on both; several failing, or aborted by interrupt, lack of memory or stack, or by a read error; in the main "
        "thread or in one that ends), repeated with new names in every round, everything it made being dropped after the round; the "
        "references held by all containers of the process are counted after each round and must stop growing; what grows is followed for 250 "
        "rounds, so that a cache of bounded size is not mistaken for growth. Non-trivial: a use failed, was aborted, or mixed old and new objects")
MEASURE = "distinct (use, outcome) sequences"
REAL = W.REAL + ["garbage collection"]
STUB = ["hash() salted (seam)", "raw reads of data files"]
SHRINK_BELOW = 200  # the first step of the minimisation makes runs short
ROUNDS, LONG = 7, (130, 190, 250)
DO = ["parse"] * 5 + ["file"] * 2 + ["cli"] + ["old", "new", "mixed", "mixed"] * 2 + ["misfit", "make"]

JOIN = ["action_inst", "action_inst", "plan_inst", "formula_inst", "pred_call", "check_plan", "check_problem", "check_fresh", "build", "combine",
        "attach", "eq"]  # bring things together


def gen(rng, i, tier, hs):
    texts = O.gen_texts(rng, 1)
    pf = rng.choice([0, 0.3, 0.6])
    uses = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        k = rng.choice(["domain", "domain", "problem", "problem", "plan"])
        u = {"do": rng.choice(DO), "kind": k, "text": texts[k], "own": rng.random() < 0.15, "thread": rng.random() < 0.15, "fault": None,
             "op": O.gen_op(rng, O.READ + ["attach", "attach"] if rng.random() < 0.4 else JOIN), "r": rng.randrange(1 << 30)}
        if rng.random() < 0.3:
            u["text"] = G.break_text(rng, u["text"])
        if rng.random() < pf:
            u["fault"] = {"kind": rng.choice(["KeyboardInterrupt", "MemoryError", "RecursionError"]), "at": int(80 ** rng.random()),
                          "where": rng.choice(["1", "2", "3"])}
        if u["do"] in ("file", "cli") and rng.random() < 0.4:
            u["io"] = simio.gen_hard(rng, len(u["text"]))
        uses.append(u)
    return {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "texts": texts, "uses": uses}


def renamed(text, r):
    """The text with every name of it replaced by one that no other round uses."""
    return re.sub(r"(?<![-\w:])(\?)?([A-Za-z][-\w]*)", lambda m: m.group(0) if not m.group(1) and m.group(2).lower() in G.KEYWORDS
                  else f"{m.group(0)}-r{r:03d}", text)


def held():
    """How many references the containers of this process hold, and of what."""
    gc.collect()
    objs = gc.get_objects()
    refs = gc.get_referents(*objs)
    plain = [x for x in refs if type(x) is dict and not gc.is_tracked(x)]
    return len(refs) + sum(map(len, plain))


def kinds():
    gc.collect()
    refs = gc.get_referents(*gc.get_objects())
    c = Counter(type(x).__name__ for x in refs)
    c.update(type(y).__name__ for x in refs if type(x) is dict and not gc.is_tracked(x) for y in x.values())
    return c


class Mixed:
    """A pool that has the objects of two pools; its problem may be an old one and its domain a new one."""

    def __init__(self, old, new, r):
        self.root = {k: r.choice([old, new]).root[k] for k in old.root}
        for k in ("formulas", "goals", "consts", "vars", "hashables", "nodes"):
            setattr(self, k, getattr(old, k) + getattr(new, k))
        self.by = {k: old.by.get(k, []) + new.by.get(k, []) for k in {**old.by, **new.by}}
        self.set = self.dict = None


def make(r, n):
    """Values of classes that check or convert what they are given."""
    from pddl.custom_types import name, parse_name, parse_type, to_names
    from pddl.logic import constants, variables
    from pddl.logic.functions import NumericFunction, NumericValue, Plus
    from pddl.logic.predicates import Predicate
    from pddl.requirements import Requirements
    s = f"n-r{n:03d}"
    k = r.randrange(8)
    if k == 0:
        return [name(s), parse_name(s), parse_type(s)]
    if k == 1:
        return [*constants(f"{s} {s}b", type_=s), *variables(f"{s} {s}b", types=[s])]
    if k == 2:
        return to_names([s, s + "b"])
    if k == 3:
        return Plus(NumericFunction(s), NumericValue(n + 1000))
    if k == 4:
        return hash(Predicate(s)) and {Predicate(s): 1}[Predicate(s)]
    if k == 5:
        return Requirements(s)  # there is no such one
    if k == 6:
        return parse_name(s + "!")
    return pickle.loads(pickle.dumps([name(s), Predicate(s)]))


def use(u, n, old, disk, texts):
    """One use in round n; everything it makes is dropped by the caller."""
    k, d, r = u["kind"], u["do"], random.Random(u["r"])
    if d == "parse":
        return (W.new_parser(k) if u["own"] else W.parser(k))(renamed(u["text"], n))
    if d in ("file", "cli"):
        fn = disk.put("f", renamed(u["text"], n).encode("utf-8", "surrogateescape"))
        if u.get("io"):
            disk.plan(fn, u["io"])
        try:
            if d == "file":
                import pddl
                return getattr(pddl, "parse_" + k)(fn)
            from pddl.__main__ import cli
            return cli.main(args=["-q", k, fn], prog_name="pddl", standalone_mode=False)
        finally:
            disk.plans.clear()
            del disk.handles[:], disk.gc_closed[:]
    if d == "make":
        return make(r, n)
    if d == "old":
        return O.do(u["op"], old)
    new = O.Env({x: renamed(t, n) for x, t in texts.items()})
    if not O.usable(new):
        return None
    if d == "new":
        if r.random() < 0.3:
            new.warm()
        return O.do(u["op"], new)
    if d == "misfit":
        return [old.root["problem"].check(new.root["domain"])] if r.random() < 0.5 else old.root["plan"].check(new.root["domain"], new.root["problem"])
    return O.do(u["op"], Mixed(old, new, r))


def one_round(case, n, old, disk, log, st):
    sim = kernel.Sim()
    with sim:
        for u in case["uses"]:
            def go():
                return W.outcome(lambda: use(u, n, old, disk, case["texts"]))
            if u["thread"]:
                box = []
                why = sim.run_threads([lambda t: box.append(go())])
                if why:
                    raise kernel.SimStop(why)
                got = box[0]
            else:
                got = sim.call_main(go, u["fault"], 20_000_000)
            f = sim.last_fault if not u["thread"] else None
            if log is not None:
                fired = bool(f and f.fired)
                log.append([u["do"], u["kind"], got[0], got[1] if got[0] == "err" else "", fired])
                if fired:
                    st["fault:" + f.kind] = st.get("fault:" + f.kind, 0) + 1
                st["probe:" + u["do"]] = st.get("probe:" + u["do"], 0) + 1


def stage(case):
    seams.SALT[0] = case["salt"]
    old = O.Env(case["texts"])
    if not O.usable(old):
        return {"viol": None, "stats": {"unusable": 1}, "digest": "unusable", "nontrivial": False}
    gc.unfreeze()
    gc.disable()
    st, log, viol, seen = {}, [], None, [0] * ROUNDS
    with simio.Disk() as disk:
        try:
            for n in range(ROUNDS):
                one_round(case, n, old, disk, log if n == 0 else None, st)
                seen[n] = held()
            st["rounds"] = ROUNDS
            if seen[-1] > seen[-2] > seen[-3] > seen[-4]:
                st["followed"] = 1
                far = case.get("far", LONG)
                at = dict.fromkeys(far, 0)
                for n in range(ROUNDS, far[-1] + 1):
                    one_round(case, n, old, disk, None, st)
                    gc.collect(0)
                    if n == 30 < far[0] and held() - seen[-1] < n - ROUNDS:
                        grown = [0]
                        break
                    if n in far:
                        at[n] = held()
                        if n == far[-2]:
                            before = kinds()
                else:
                    grown = [at[b] - at[a] for a, b in zip(far, far[1:])]
                if all(g >= b - a for g, a, b in zip(grown, far, far[1:])):
                    more = kinds() - before
                    viol = ["grows", f"with every repetition of {[l[:4] for l in log]} the process keeps more: "
                                     f"{grown[-1]} references in {far[-1] - far[-2]} repetitions: {dict(more.most_common(4))}"]
        except (kernel.SimStop, kernel.SimDeadlock) as e:
            viol = ["stuck", f"a use never ended ({e}) in {log}"]
        for k, v in disk.stats.items():
            st[k] = st.get(k, 0) + v
    return {"viol": viol, "stats": st, "log": log, "sig": runner.digest(log), "digest": runner.digest([log, viol]), "seen": seen,
            "nontrivial": any(l[2] == "err" for l in log) or any(u["do"] == "mixed" for u in case["uses"])}


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=200)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    return out[1]


def shrink(case):
    if "far" not in case:
        yield dict(case, far=[20, 40, 60])
    for x in W.without(case["uses"]):
        if x:
            yield dict(case, uses=x)
    for b, u in enumerate(case["uses"]):
        for k in ("fault", "io", "thread", "own"):
            if u.get(k):
                yield dict(case, uses=case["uses"][:b] + [dict(u, **{k: None})] + case["uses"][b + 1:])
