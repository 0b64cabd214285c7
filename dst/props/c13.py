"""C13: every call finishes."""
import copy
import pickle
import random
import resource

from .. import big as B
from .. import fp as F
from .. import gen as G
from .. import kernel, ops as O, runner, seams, simio
from ..zygote import in_child
from ..work import *  # noqa
from .. import work as W
from . import c09

HS = 2
RUNS = {"quick": (2800, 150), "thorough": (50000, 3000)}
RULE = ("one case = a process that parses large, deep, cyclic, repetitive, damaged and hopeless texts (%d families) and then formats, compares, "
        "hashes, checks, instantiates, copies and pickles the results; or does so after calls that failed or were aborted; or in 2-4 threads "
        "on the same parsers and objects, some aborted; or builds type hierarchies of any shape and formulas nested up to 90 deep through the constructors; or runs the command "
        "with disk and output faults. Every call must end within 50000 + 2000 n + 40 n^2 executed lines, n the number of tokens of its input "
        "(the unchanged tree needs at most 5 n^2), within 30 s of processor time, and never wait for something that cannot happen. "
        "Non-trivial: any" % len(B.FAM))
MEASURE = "distinct (mode, texts, outcomes, steps) digests"
REAL = W.REAL
STUB = ["thread scheduling and locks, sleeping (simulator)", "raw disk reads and output of the command runs", "hash() salted (seam)"]
CPU = 30


def bound(n):
    return 50_000 + 2_000 * n + 40 * n * n


def size(*texts):
    return sum(len(G.scan(t)) for t in texts) + 1


def gen_big(rng, top=160):
    f = rng.choice(sorted(B.FAM))
    k, t = B.FAM[f](rng.choice([1, 2, 3, 5, 9, 20, 40, 80, top]), rng)
    r = rng.random()
    if r < 0.12:
        t = t[:rng.randrange(len(t) + 1)]
    elif r < 0.24:
        t = G.break_text(rng, t)
    elif r < 0.3:
        i, j = sorted(rng.randrange(len(t) + 1) for _ in range(2))
        t = t[:j] + t[i:]
    elif r < 0.34:
        k = rng.choice(["domain", "problem", "plan"])
    return [k, t[:40000], f]


SMALL = {"domain": "(define (domain d) (:predicates (p)))", "problem": "(define (problem p) (:domain d) (:init) (:goal (and)))",
         "plan": "(a b)"}
FAULTS = ["KeyboardInterrupt", "MemoryError", "RecursionError"]
OPS = ["str", "repr", "eq", "hash", "fmt", "pickle", "copy", "inst", "check", "lt", "again"]
DEEP = ["not", "and", "or", "imply", "imply_l", "forall", "exists", "oneof", "when", "eff", "wide"]
DEEP_OPS = ["eq", "ne", "hash", "str", "repr", "pickle", "copy", "inst", "inset", "derived", "action", "problem"]
MODES = ["big", "big", "big", "after", "after", "threads", "threads", "api", "deep", "cli", "files", "names"]
MAKE = ["name", "pred", "const", "var", "func", "domain", "problem", "action", "tag", "type", "plan", "cast", "helper"]


def gen(rng, i, tier, hs):
    c = {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "mode": rng.choice(MODES), "r": rng.randrange(1 << 30)}
    if c["mode"] == "big":
        c["texts"] = [gen_big(rng) for _ in range(rng.choice([1, 1, 2]))]
        c["ops"] = [rng.choice(OPS) for _ in range(rng.randint(1, 5))]
    elif c["mode"] == "after":
        h = []
        for _ in range(rng.randint(2, 6)):
            k, t, f = gen_big(rng, 40) if rng.random() < 0.5 else [(q := rng.choice(["domain", "domain", "problem", "plan"])),
                                                                  W.gen_text(rng, q), "world"]
            h.append({"t": [k, t, f], "fault": W.gen_fault(rng, t, rng.choice(["parse", "1", "2", "3"])) if rng.random() < 0.5 else None,
                      "ops": [[rng.choice(OPS), {"kind": rng.choice(FAULTS), "at": int(60 ** rng.random()), "where": "1"}
                               if rng.random() < 0.5 else None] for _ in range(rng.choice([0, 1, 2]))]})
        c["history"] = h
    elif c["mode"] == "threads":
        c["texts"] = O.gen_texts(rng, 1)
        extra = [gen_big(rng, 20) for _ in range(2)]
        th = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 5)):
                if rng.random() < 0.4:
                    k = rng.choice(["domain", "problem", "plan"])
                    t = c["texts"][k] if rng.random() < 0.6 else None
                    if t is None:
                        k, t, _f = rng.choice(extra)
                    op = {"op": "parse", "kind": k, "text": t}
                else:
                    op = O.gen_op(rng, O.READ + ["attach"] * 3)
                op["fault"] = {"kind": rng.choice(FAULTS), "at": int(80 ** rng.random()), "where": rng.choice(["parse", "1", "2", "3"])} \
                    if rng.random() < 0.35 else None
                ops.append(op)
            th.append(ops)
        c.update(threads=th, gran=rng.choice(["line", "line", "instr"]), policy=W.gen_policy(rng), sseed=rng.randrange(1 << 30))
    elif c["mode"] == "api":
        n = rng.choice([1, 2, 3, 5, 9, 30, 80, 200])
        shape = rng.choice(["any", "chain", "cycle", "tree", "self", "rho"])
        e = {"any": [[i, rng.randrange(n)] for i in range(n)], "chain": [[i, i + 1] for i in range(n)],
             "cycle": [[i, (i + 1) % n] for i in range(n)], "tree": [[i, (i - 1) // 2] for i in range(1, n + 1)],
             "self": [[i, i] for i in range(n)], "rho": [[i, i + 1] for i in range(n)] + [[n, n // 2]]}[shape]
        if rng.random() < 0.5:
            rng.shuffle(e)
        c.update(shape=shape, edges=e, ops=[rng.choice(OPS) for _ in range(rng.randint(1, 4))], typed=rng.randrange(1 << 20))
    elif c["mode"] == "deep":
        one = rng.random() < 0.5  # one kind of formula all the way, or any
        kinds = [rng.choice(DEEP)] if one else DEEP
        c.update(recipe=[rng.choice(kinds) for _ in range(rng.choice([2, 8, 20, 40, 60, 90]))],
                 ops=[rng.choice(DEEP_OPS) for _ in range(rng.randint(1, 5))])
    elif c["mode"] == "names":
        w = rng.choice(["a", "a-", "a_", "a1", "A0-", "-", "_", "0", "?a", " ", "a ", "define", "aa-b_", ":", "a\n"])
        n = rng.choice([1, 3, 10, 25, 40, 80, 300, 5000])
        c.update(name=(rng.choice(["", "", "x", "?", "@", "-", "1"]) + w * n)[:6000] + rng.choice(["", "!", "$", " ", ".", "\n", "\u00e9", "?", "-"]),
                 ops=[rng.choice(MAKE) for _ in range(rng.randint(1, 5))])
    elif c["mode"] == "files":
        fs = []
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(["domain", "problem", "plan", "plan"])
            t = W.gen_text(rng, k)
            if rng.random() < 0.5:
                t = G.break_text(rng, t)
            elif rng.random() < 0.2:
                k, t, _f = gen_big(rng, 20)
            fs.append({"kind": k, "text": t, "missing": rng.random() < 0.1, "again": rng.random() < 0.4,
                       "io": None if rng.random() < 0.6 else simio.gen_hard(rng, len(t)) if rng.random() < 0.6 else simio.gen_soft(rng),
                       "fault": W.gen_fault(rng, t) if rng.random() < 0.3 else None})
        c.update(files=fs)
    else:
        k = rng.randint(1, 3)
        base = c09.gen(rng, i, tier, hs)
        for f in base["files"]:
            if rng.random() < 0.3:
                f["text"] = gen_big(rng, 40)[1]
        c.update(files=base["files"][:k], out=base["out"], quiet=base["quiet"])
    return c


# ---------------------------------------------------------------- one call under a budget

class Stuck(Exception):
    pass


class Caller:
    def __init__(self, sim, st, log):
        self.sim, self.st, self.log = sim, st, log

    def __call__(self, what, n, fn, fault=None):
        """-> (outcome class, value); raises Stuck when the call does not end within its bound."""
        at, got = self.sim.step, []

        def go():
            got.append(fn())
        try:
            out = self.sim.call_main(lambda: W.outcome(go), fault, bound(n))
        except kernel.SimStop:
            raise Stuck(f"{what} has not ended after {self.sim.step - at} steps; its input has {n} tokens")
        except kernel.SimDeadlock:
            raise Stuck(f"{what} waits for ever")
        f = self.sim.last_fault
        if f and f.fired:
            self.st["fault:" + f.kind] = self.st.get("fault:" + f.kind, 0) + 1
        self.st["calls"] = self.st.get("calls", 0) + 1
        if out[0] == "err":
            self.st["ended in an error"] = self.st.get("ended in an error", 0) + 1
        used = (self.sim.step - at) * 100 // bound(n)
        self.st["worst_share_percent"] = max(self.st.get("worst_share_percent", 0), used)
        self.log.append([what, out[0], out[1] if out[0] == "err" else "", self.sim.step - at])
        return got[0] if got else None


def the_op(u, k, o, other, text):
    from pddl import formatter
    if u == "str":
        return str(o) and None
    if u == "repr":
        parts = O.kids(o) if O.is_model(o) else [o]
        return [repr(x) for y in parts for x in (y if isinstance(y, (list, tuple, set, frozenset, dict)) else [y])] and None
    if u == "eq":
        return [o == other, o != other] and None
    if u == "hash":
        return [hash(x) for y in O.kids(other if other is not None else o)
                for x in (y if isinstance(y, (list, tuple, set, frozenset, dict)) else [y]) if O.hashable(x)] and None
    if u == "fmt":
        return getattr(formatter, k + "_to_string")(o) and None
    if u == "pickle":
        return pickle.loads(pickle.dumps(o)) and None
    if u == "copy":
        return copy.deepcopy(o) and None
    if u == "inst" and k == "domain":
        for a in sorted(o.actions, key=lambda a: a.name):
            a.instantiate(list(a.parameters))
    if u == "lt" and k == "domain":
        for xs in (o.predicates, o.constants, o.functions, o.requirements):
            sorted(xs)
    if u == "lt" and k == "problem":
        sorted(o.objects)
    if u == "check" and k == "problem":
        from pddl.core import Domain
        o.check(Domain(o.domain_name, requirements=o.requirements))
    if u == "check" and k == "domain":
        from pddl.core import Domain
        Domain("again", requirements=o.requirements, types=o.types, constants=o.constants, predicates=o.predicates,
               derived_predicates=o.derived_predicates, functions=o.functions, actions=o.actions)
    if u == "again":
        W.parser(k)(str(o))


def m_big(case, call, st):
    for k, t, f in case["texts"]:
        n = size(t)
        o = call(f"parsing ({f}, {k})", n, lambda: W.parser(k)(t))
        other = None
        if o is not None and "eq" in case["ops"]:
            other = call("parsing again", n, lambda: W.parser(k, 1)(t))
        if o is not None:
            for u in case["ops"]:
                call(f"{u} on a {k} ({f})", n, lambda: the_op(u, k, o, other, t))
                st["probe:" + u] = st.get("probe:" + u, 0) + 1
        st["probe:" + f] = st.get("probe:" + f, 0) + 1


def m_after(case, call, st):
    last = {}
    for h in case["history"]:
        k, t, f = h["t"]
        n = size(t)
        o = call(f"parsing ({f}, {k})" + (", aborted" if h["fault"] else ""), n, lambda: W.parser(k)(t), h["fault"])
        if h["fault"]:
            o = call(f"parsing ({f}, {k}) after an aborted parse", n, lambda: W.parser(k)(t)) or o
        if o is None:
            o, n = last.get(k, (None, 0))
        else:
            last[k] = o, n
        if o is not None:
            for u, fault in h["ops"]:
                for fl in ([fault, None] if fault else [None]):
                    call(f"{u} on a {k}" + (", aborted" if fl else ""), n, lambda: the_op(u, k, o, o, t), fl)
    for k in ("domain", "problem", "plan"):
        call(f"a last parse ({k})", 30, lambda: W.parser(k)(SMALL[k]))


def m_api(case, call, st):
    from pddl.core import Domain, Problem
    from pddl.logic.base import And, Or, Not, Imply
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable
    from pddl.action import Action
    from pddl.requirements import Requirements as R
    r = random.Random(case["typed"])
    types = {f"t{a}": f"t{b}" for a, b in case["edges"]}
    n = 6 * len(types) + 20
    names = sorted(types) or ["t0"]

    def tag():
        return r.choice(names)

    def formula(d):
        f = Predicate("p", Variable("x", [tag()]))
        for _ in range(d):
            f = r.choice([lambda: Not(f), lambda: And(f, Predicate("q")), lambda: Or(f, Predicate("q")), lambda: Imply(f, Predicate("q"))])()
        return f
    depth = r.choice([1, 5, 30, 120])
    made = {}

    def build():
        f = formula(depth)
        cs = [Constant(f"c{i}", tag()) for i in range(r.randint(0, 6))]
        ps = [Predicate("p", Variable("x", r.sample(names, min(len(names), r.randint(1, 4))))), Predicate("q")]
        made["d"] = Domain("d", requirements=[R.TYPING, R.ADL], types=types, constants=cs, predicates=ps,
                           actions=[Action("a", [Variable("x", [tag()])], precondition=f, effect=Predicate("q"))],
                           derived_predicates=[DerivedPredicate(ps[0], f)])
        return made["d"]
    call(f"a domain with types ({case['shape']}, {len(types)})", n + 3 * depth, build)
    st["probe:types " + case["shape"]] = 1
    d = made.get("d")
    if d is not None:
        for u in case["ops"]:
            call(f"{u} on a domain ({case['shape']})", n + 3 * depth, lambda: the_op(u, "domain", d, d, ""))
        call("a problem of the domain", n + 3 * depth,
             lambda: Problem("pb", domain=d, objects=[Constant(f"o{i}", tag()) for i in range(4)], init=[Predicate("q")],
                             goal=Predicate("q")))


def m_deep(case, call, st):
    """A formula nested as the recipe says, built twice; then compared, hashed, printed, copied, instantiated, put into larger things."""
    from pddl.action import Action
    from pddl.core import Problem
    from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
    from pddl.logic.effects import Forall, When
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable
    n = 8 * len(case["recipe"]) + 20
    x = Variable("x")
    q = Predicate("q", x)
    mk = {"not": Not, "and": lambda f: And(q, f), "or": lambda f: Or(f, q), "imply": lambda f: Imply(q, f), "imply_l": lambda f: Imply(f, q),
          "forall": lambda f: ForallCondition(f, [Variable("z")]), "exists": lambda f: ExistsCondition(f, [Variable("z")]),
          "oneof": lambda f: OneOf(q, f), "when": lambda f: When(q, f), "eff": lambda f: Forall(f, [Variable("z")]),
          "wide": lambda f: And(q, f, Predicate("r"), Predicate("s"))}
    made = []

    def build():
        f = Predicate("p", x)
        for k in case["recipe"]:
            f = mk[k](f)
        made.append(f)
    what = case["recipe"][0] if len(set(case["recipe"])) == 1 else "mixed"
    for _ in range(2):
        call(f"building a formula ({what}, {len(case['recipe'])} deep)", n, build)
    if len(made) < 2:
        return
    a, b = made
    does = {"eq": lambda: a == b, "ne": lambda: a != b, "hash": lambda: [hash(a), hash(b)], "str": lambda: str(a), "repr": lambda: repr(a),
            "pickle": lambda: pickle.loads(pickle.dumps(a)), "copy": lambda: copy.deepcopy(b), "inst": lambda: a.instantiate({x: Constant("c")}),
            "inset": lambda: a in {b: 1}, "derived": lambda: [DerivedPredicate(q, a) == DerivedPredicate(q, b), hash(DerivedPredicate(q, a))],
            "action": lambda: [Action("go", [x], a, b) == Action("go", [x], b, a), str(Action("go", [x], a, b)),
                               Action("go", [x], a, b).instantiate([Constant("c")])],
            "problem": lambda: [Problem("pb", domain_name="d", init=[], goal=a) == Problem("pb", domain_name="d", init=[], goal=b),
                                str(Problem("pb", domain_name="d", goal=b))]}
    for u in case["ops"]:
        call(f"{u} on formulas ({what}, {len(case['recipe'])} deep)", n, lambda: does[u]() and None)
        st["probe:deep " + u] = st.get("probe:deep " + u, 0) + 1


def m_names(case, call, st):
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.custom_types import name, parse_name, parse_type, to_names, to_types
    from pddl.logic.functions import NumericFunction
    from pddl.logic.helpers import constants, variables
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable
    w = case["name"]
    does = {"name": lambda: name(w), "pred": lambda: Predicate(w, Variable("x")), "const": lambda: Constant(w), "var": lambda: Variable(w),
            "func": lambda: NumericFunction(w, Variable("x")), "domain": lambda: Domain(w), "problem": lambda: Problem(w, domain_name=w),
            "action": lambda: Action(w, []), "tag": lambda: Variable("x", [w]), "type": lambda: Domain("d", types={w: None}),
            "plan": lambda: str(Plan([(w, [])])), "cast": lambda: [parse_name(w), parse_type(w), to_names([w]), to_types({w: w})],
            "helper": lambda: [variables(w), constants(w)]}
    for u in case["ops"]:
        call(f"{u} named {w[:30]!r}.. ({len(w)} characters)", len(w), lambda: does[u]() and None)
        st["probe:name " + u] = 1


def m_files(case, call, st):
    import pddl
    with simio.Disk() as disk:
        for k, f in enumerate(case["files"]):
            fn = disk.put(f"f{k}.pddl", f["text"].encode("utf-8", "surrogateescape"))
            if f["io"]:
                disk.plan(fn, f["io"])
            helper, n = getattr(pddl, "parse_" + f["kind"]), size(f["text"]) + 30
            for again in range(1 + f["again"]):
                call(f"parse_{f['kind']} of a file", n, lambda: helper(fn if again or not f["missing"] else fn + "x"),
                     None if again else f["fault"])
        for k in ("domain", "problem", "plan"):
            fn = disk.put("last-" + k, SMALL[k].encode())
            call(f"parse_{k} of a last file", 60, lambda: getattr(pddl, "parse_" + k)(fn))
        for k, v in disk.stats.items():
            st[k] = st.get(k, 0) + v


def m_cli(case, call, st):
    with simio.Disk() as disk:
        argv = ["-q"] if case["quiet"] else []
        for k, f in enumerate(case["files"]):
            fn = disk.put(f"f{k}.pddl", f["text"].encode())
            if f["io"]:
                disk.plan(fn, f["io"])
            argv.append(fn if not f["missing"] else fn + "x")
        call("the command", sum(size(f["text"]) for f in case["files"]) + 50, lambda: c09.invoke(argv, case["out"], st) and None)
        for k, v in disk.stats.items():
            st[k] = st.get(k, 0) + v


def alone(e, case):
    sim = kernel.Sim(budget=20_000_000, gran=case["gran"])
    with sim:
        for ops in case["threads"]:
            for op in ops:
                sim.call_main(lambda: W.outcome(lambda: do(op, e)))
    return sim.step


def do(op, e):
    if op["op"] == "parse":
        return W.parser(op["kind"])(op["text"])
    return O.do(op, e)


def m_threads(case, st, log):
    e = O.Env(case["texts"])
    if not O.usable(e):
        st["unusable"] = 1
        return None, 0
    s, total = in_child(alone, e, case)
    if s != "ok":
        if s == "harness" and "SimStop" not in str(total):
            raise RuntimeError(total)
        total = 100_000
    n = size(*case["texts"].values())
    allowed = sum(bound(size(op["text"]) if op["op"] == "parse" else n) for ops in case["threads"] for op in ops)
    sim = W.sim_for(case, total, allowed * W.SCALE[case["gran"]])
    with sim:
        def body(ops):
            def run(t):
                res = []
                for op in ops:
                    t.fault = kernel.Fault(**op["fault"]) if op["fault"] else None
                    try:
                        res.append(W.outcome(lambda: do(op, e) and None))
                    finally:
                        t.fault = None
                return res
            return run
        failure = sim.run_threads([body(ops) for ops in case["threads"]])
    W.sched_stats(sim, st)
    log += [["failure", failure], [[t.idx, t.state] for t in sim.threads], sim.sig, sim.step]
    if failure:
        return [{"deadlock": "waits", "budget": "endless"}[failure],
                f"{failure} after {sim.step} steps (alone: {total}); threads: {[(t.idx, t.state) for t in sim.threads]}"], sim
    for t in sim.threads:
        if isinstance(t.result, tuple):
            raise RuntimeError(t.result)
    st["calls"] = sum(map(len, case["threads"]))
    return None, sim


def stage(case):
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
    seams.SALT[0] = case["salt"]
    st, log, viol, sw = {"mode:" + case["mode"]: 1}, [], None, None
    if case["mode"] == "threads":
        viol, sim = m_threads(case, st, log)
        sw = sim.switch_log if sim else []
        if viol is None and sim:  # and afterwards everything still works
            sim2 = kernel.Sim()
            with sim2:
                try:
                    m_after({"history": []}, Caller(sim2, st, log), st)
                except Stuck as x:
                    viol = ["waits", f"after the threads ended: {x}"]
    else:
        sim = kernel.Sim()
        with sim:
            call = Caller(sim, st, log)
            try:
                {"big": m_big, "after": m_after, "api": m_api, "deep": m_deep, "cli": m_cli,
                 "names": m_names, "files": m_files}[case["mode"]](case, call, st)
            except Stuck as x:
                viol = ["endless" if "waits" not in str(x) else "waits", str(x)]
        st["steps"] = sim.step
    w = st.pop("worst_share_percent", 0)
    st["calls using 10-100% of their bound"] = int(w >= 10)
    return {"viol": viol, "stats": st, "log": log, "sig": runner.digest([log, case["mode"]]), "switches": sw,
            "digest": runner.digest([log, viol]), "nontrivial": True}


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=150)
    if out[0] != "ok":
        cpu = str(out[1]) in ("wait status 24", "wait status 152")  # SIGXCPU
        why = f"more than {CPU} s of processor time" if cpu else "150 s without an answer" if out[0] == "wall" else "the process died"
        return {"viol": ["endless" if out[0] == "wall" or cpu else "crash", f"{why}: {out}"], "digest": str(out)}
    return out[1]


def shrink(case):
    m = case["mode"]
    if m == "big":
        for x in W.without(case["texts"]):
            if x:
                yield dict(case, texts=x)
        for x in W.without(case["ops"]):
            yield dict(case, ops=x)
        for i, (k, t, f) in enumerate(case["texts"]):
            for u in W.shrink_text(t):
                yield dict(case, texts=case["texts"][:i] + [[k, u, f]] + case["texts"][i + 1:])
    elif m == "after":
        for x in W.without(case["history"]):
            yield dict(case, history=x)
        for i, h in enumerate(case["history"]):
            rest = case["history"][:i], case["history"][i + 1:]
            if h["fault"]:
                yield dict(case, history=rest[0] + [dict(h, fault=None)] + rest[1])
            for x in W.without(h["ops"]):
                yield dict(case, history=rest[0] + [dict(h, ops=x)] + rest[1])
            k, t, f = h["t"]
            for u in W.shrink_text(t):
                yield dict(case, history=rest[0] + [dict(h, t=[k, u, f])] + rest[1])
    elif m == "api":
        for x in W.without(case["edges"]):
            yield dict(case, edges=x)
        for x in W.without(case["ops"]):
            yield dict(case, ops=x)
    elif m == "deep":
        for x in W.without(case["recipe"]):
            if x:
                yield dict(case, recipe=x)
        for x in W.without(case["ops"]):
            yield dict(case, ops=x)
    elif m == "names":
        for x in W.without(case["ops"]):
            if x:
                yield dict(case, ops=x)
        for x in W.without(case["name"]):
            yield dict(case, name=x)
    elif m == "files":
        for x in W.without(case["files"]):
            yield dict(case, files=x)
        for i, f in enumerate(case["files"]):
            for c in ([dict(f, io=None)] if f["io"] else []) + ([dict(f, fault=None)] if f["fault"] else []) + \
                     [dict(f, text=u) for u in W.shrink_text(f["text"])]:
                yield dict(case, files=case["files"][:i] + [c] + case["files"][i + 1:])
    elif m == "cli":
        fs = case["files"]
        if len(fs) > 1:
            yield dict(case, files=fs[:-1])
        if case["out"]:
            yield dict(case, out=None)
        for i, f in enumerate(fs):
            if f["io"]:
                yield dict(case, files=fs[:i] + [dict(f, io=None)] + fs[i + 1:])
            for u in W.shrink_text(f["text"]):
                yield dict(case, files=fs[:i] + [dict(f, text=u)] + fs[i + 1:])
    else:
        def cands():
            th = case["threads"]
            if len(th) > 1:
                for a in range(len(th)):
                    yield dict(case, threads=th[:a] + th[a + 1:])
            for a, ops in enumerate(th):
                for o in W.without(ops):
                    if o:
                        yield dict(case, threads=th[:a] + [o] + th[a + 1:])
                for b, op in enumerate(ops):
                    if op["fault"]:
                        yield dict(case, threads=th[:a] + [ops[:b] + [dict(op, fault=None)] + ops[b + 1:]] + th[a + 1:])
            if case["gran"] != "line":
                yield dict(case, gran="line")
        for c in cands():
            yield from W.schedules(c)
