"""C12: objects keep their content whatever happens to the collections they were made from."""
import collections
import copy
import pickle
import random

from .. import fp as F
from .. import kernel, ops as O, runner, seams
from ..zygote import in_child
from ..work import *  # noqa
from .. import work as W

HS = 2
RUNS = {"quick": (3000, 150), "thorough": (60000, 3000)}
RULE = ("one case = 1-3 objects of one kind (domain, problem, plan, action, quantified formula or effect, variable, instantiation of an "
        "action, formula or plan, or parser result) made from the same caller's collections (lists, sets, dictionaries, key views, nested "
        "lists), by one thread or several at once, some attempts aborted; then, under a seeded schedule, threads read the objects while "
        "others change the collections and whatever the first object's properties hand out; every result is compared with a twin made from "
        "separate equal collections, and objects made from the changed collections with a twin of those. Non-trivial: an object was made "
        "and a collection was changed")
MEASURE = "distinct (schedule hash, kind, changes) digests"
REAL = W.REAL
STUB = ["thread scheduling and locks (simulator)", "hash() salted (seam)"]
KINDS = ["domain", "domain", "domain", "problem", "problem", "problem_d", "plan", "plan", "action", "quant", "variable", "tags", "helper",
         "action_inst", "formula_inst", "plan_inst", "parse", "parse", "chain"]
USE = ["str", "str", "repr", "hash", "eq", "value", "inset", "pickle", "deepcopy", "check", "inst"]
HOW = ["clear", "clear", "pop", "add", "add", "reverse", "set", "extend", "junk"]


def gen(rng, i, tier, hs):
    n = rng.choice([1, 2, 2, 3])
    return {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "texts": O.gen_texts(rng), "kind": rng.choice(KINDS),
            "r": rng.randrange(1 << 30), "n": n, "par": rng.random() < 0.4,
            "fault": {"kind": rng.choice(["KeyboardInterrupt", "MemoryError", "RecursionError"]), "at": int(60 ** rng.random()),
                      "where": rng.choice(["1", "2", "3"])} if rng.random() < 0.3 else None,
            "first": [rng.choice(USE) for _ in range(rng.choice([0, 0, 1, 3]))],
            "readers": [[[rng.choice(USE), rng.randrange(4), rng.randrange(1 << 30)] for _ in range(rng.randint(1, 6))]
                        for _ in range(rng.choice([0, 1, 1, 2]))],
            "changes": [[rng.randrange(1 << 20), rng.choice(HOW), rng.randrange(1 << 30)] for _ in range(rng.randint(1, 8))],
            "own": [[rng.randrange(1 << 20), rng.choice(HOW), rng.randrange(1 << 30)] for _ in range(rng.choice([0, 0, 2, 4]))],
            "gran": rng.choice(["line", "line", "instr"]), "policy": W.gen_policy(rng), "sseed": rng.randrange(1 << 30)}


# ---------------------------------------------------------------- the caller's collections

def dup(x):
    return type(x)(dup(y) for y in x) if isinstance(x, (list, tuple)) else x


class Coll:
    """A collection a caller owns; `arg` is what is passed (the collection itself, or a live view of it)."""

    pool2 = ()

    def __init__(self, r, items, shape, pool=()):
        self.pool = list(pool)
        self.view = False
        items = list(items)
        if shape == "map":
            self.c = r.choice([dict, dict, collections.OrderedDict])(items)
        elif shape == "seq":
            self.c = list(items)
        elif shape == "pairs":  # nested: every step's parameters are a list of their own
            self.c = [r.choice([tuple, list, tuple])((n, list(ps))) for n, ps in items]
        else:
            k = r.choice(["list", "list", "set", "set", "deque", "view"])
            self.view = k == "view"
            self.c = {"list": list, "set": set, "deque": collections.deque, "view": dict.fromkeys}[k](items)
        self.shape = shape

    @property
    def arg(self):
        return self.c.keys() if self.view else self.c

    def twin(self):
        """A separate equal collection."""
        t = copy.copy(self)
        if self.shape == "pairs":
            t.c = dup(self.c)
        else:
            t.c = copy.copy(self.c)
        return t

    def content(self):
        """Identity of the elements (ordered if the collection is)."""
        if self.shape == "map":
            return [(id(k), id(v)) for k, v in self.c.items()]
        if self.shape == "pairs":
            return [(id(x), id(x[0]), id(x[1]), [id(y) for y in x[1]]) for x in self.c]
        xs = [id(x) for x in self.c]
        return sorted(xs) if isinstance(self.c, set) else xs


def change(c, how, r, pool):
    """Change a collection in place, whatever it is."""
    new = [r.choice(pool) for _ in range(2)] if pool else []
    junk = how == "junk" or not new
    if junk:
        new = [None, 7]
    if isinstance(c, (dict,)):
        if how in ("clear", "reverse"):
            c.clear()
        elif how == "pop" and c:
            c.pop(r.choice(list(c)))
        elif how == "set" and c:
            c[r.choice(list(c))] = new[0]
        else:
            c.update({x: None for x in new})
    elif isinstance(c, set):
        if how == "clear":
            c.clear()
        elif how == "pop" and c:
            c.discard(sorted(c, key=repr)[r.randrange(len(c))])
        else:
            c.update(new)
    elif isinstance(c, (list, collections.deque)):
        if how == "clear":
            c.clear()
        elif how == "pop" and c:
            del c[r.randrange(len(c))]
        elif how == "reverse":
            c.reverse()
        elif how == "set" and c:
            c[r.randrange(len(c))] = new[0]
        elif how == "extend":
            c.extend(new)
        else:
            c.insert(r.randint(0, len(c)), new[0])
    return junk


def targets(colls):
    """Everything of the caller's that can be changed, inner lists included."""
    out = []
    for c in colls:
        out.append((c.c, c.pool))
        if c.shape == "pairs":
            for x in c.c:
                if isinstance(x, list):
                    out.append((x, ["zz", "zz2"]))
                out.append((x[1], c.pool2))
    return out


# ---------------------------------------------------------------- making objects

def maker(case, e):
    """-> (collections, make(collections) -> object).  Deterministic in the case."""
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.logic.base import ExistsCondition, ForallCondition
    from pddl.logic.effects import Forall
    from pddl.logic.helpers import variables
    from pddl.logic.terms import Variable
    r = random.Random(case["r"])
    d, p, pl = e.root["domain"], e.root["problem"], e.root["plan"]
    d2, p2 = e.root["domain2"], e.root["problem2"]
    by, k = e.by, case["kind"]

    def srt(xs):
        xs = sorted(xs, key=lambda x: repr(F.fp(x)))
        if r.random() < 0.2 and xs:
            xs = r.sample(xs, r.randint(0, len(xs)))
        return xs

    def preds():
        return by.get("Predicate", [])
    nm = r.choice([str, lambda t: t])  # names as text or as the library's own kind
    tags = sorted({nm(t) for v in e.consts + e.vars for t in v.type_tags}) or ["ta"]
    if k == "domain":
        cs = [Coll(r, sorted(d.requirements, key=str), "any", sorted(d2.requirements, key=str)),
              Coll(r, [(nm(a), None if b is None else nm(b)) for a, b in d.types.items()], "map", ["zz1", "zz2"]),
              Coll(r, srt(d.constants), "any", e.consts), Coll(r, srt(d.predicates), "any", preds()),
              Coll(r, srt(d.derived_predicates), "any", by.get("DerivedPredicate", [])),
              Coll(r, [(f, t) for f, t in d.functions.items()], "map", by.get("NumericFunction", [])),
              Coll(r, srt(d.actions), "any", by.get("Action", []))]
        return cs, lambda q: Domain("made", requirements=q[0].arg, types=q[1].arg, constants=q[2].arg, predicates=q[3].arg,
                                    derived_predicates=q[4].arg, functions=q[5].arg, actions=q[6].arg)
    if k == "problem":
        cs = [Coll(r, sorted(d.requirements, key=str), "any", sorted(d2.requirements, key=str)), Coll(r, srt(p.objects), "any", e.consts),
              Coll(r, srt(p.init), "any", sorted(p2.init, key=str) + preds())]
        req = r.random() < 0.7
        return cs, lambda q: Problem("made", domain_name=d.name, requirements=q[0].arg if req else None, objects=q[1].arg, init=q[2].arg,
                                     goal=p.goal, metric=p.metric)
    if k == "problem_d":
        cs = [Coll(r, sorted(d.requirements, key=str), "any", sorted(d2.requirements, key=str)), Coll(r, srt(p.objects), "any", e.consts),
              Coll(r, srt(p.init), "any", sorted(p2.init, key=str) + preds())]
        return cs, lambda q: Problem("made", domain=d, requirements=q[0].arg, objects=q[1].arg, init=q[2].arg, goal=p.goal, metric=p.metric)
    if k in ("plan", "plan_inst"):
        c = Coll(r, [(str(n), ps) for n, ps in pl.actions], "pairs", [("zz", [x]) for x in e.consts[:3]])
        c.pool2 = e.consts
        if k == "plan":
            return [c], lambda q: Plan(q[0].arg)

        def inst(q):
            x = Plan([])
            x.actions.extend(q[0].arg)  # a plan whose own list is the caller's business
            return x.instantiate(d)
        return [c], inst
    if k == "action":
        a = O.pick(by.get("Action"), r.randrange(1 << 20))
        vs = list(a.parameters) if a is not None else []
        cs = [Coll(r, vs, "seq", e.vars)]
        return cs, lambda q: Action("made", q[0].arg, precondition=a and a.precondition, effect=a and a.effect)
    if k == "quant":
        vs = [x for x in e.vars if r.random() < 0.4][:4]
        f, cl = O.pick(e.goals, r.randrange(1 << 20)), r.choice([ForallCondition, ExistsCondition, Forall])
        return [Coll(r, vs, "any", e.vars)], lambda q: cl(f, q[0].arg)
    if k == "variable":
        return [Coll(r, r.sample(tags, r.randint(0, min(4, len(tags)))), "any", tags)], lambda q: Variable("made", q[0].arg)
    if k == "tags":
        v = O.pick(e.vars, r.randrange(1 << 20)) or Variable("v")
        return [Coll(r, r.sample(tags, r.randint(0, min(4, len(tags)))), "any", tags)], lambda q: v.with_type_tags(q[0].arg)
    if k == "helper":
        return [Coll(r, r.sample(tags, r.randint(0, min(4, len(tags)))), "any", tags)], lambda q: variables("x y z", q[0].arg)
    if k == "action_inst":
        a = O.pick(by.get("Action"), r.randrange(1 << 20))
        fit = []
        for v in a.parameters if a is not None else []:
            c = [x for x in e.consts if not v.type_tags or x.type_tags & v.type_tags]
            fit.append(O.pick(c or e.consts, r.randrange(1 << 20)))
        return [Coll(r, fit, "seq", e.consts)], lambda q: a.instantiate(q[0].arg)
    if k == "formula_inst":
        f = O.pick(e.formulas, r.randrange(1 << 20))
        m = []
        for v in [x for x in O.nodes([f]) if type(x).__name__ == "Variable"]:
            c = [x for x in e.consts + e.vars if not v.type_tags or x.type_tags & v.type_tags]
            m.append((v, O.pick(c or e.consts, r.randrange(1 << 20))))
        return [Coll(r, m, "map", e.vars)], lambda q: f.instantiate(q[0].arg)
    if k == "parse":  # the maker is a parser, which goes on to read other texts
        w = r.choice(["domain", "domain", "problem", "plan"])
        t = case["texts"][w]
        return [], lambda q: W.parser(w, 0 if q is not None else 1)(t)
    # chain: an object made from what another's properties hand out
    src = O.pick([d, p, pl], r.randrange(3))
    src = pickle.loads(pickle.dumps(src))

    def chained(q):
        if type(src).__name__ == "Domain":
            return Domain("made", requirements=src.requirements, types=src.types, constants=src.constants, predicates=src.predicates,
                          derived_predicates=src.derived_predicates, functions=src.functions, actions=src.actions)
        if type(src).__name__ == "Problem":
            return Problem("made", domain_name=src.domain_name, requirements=src.requirements, objects=src.objects, init=src.init,
                           goal=src.goal, metric=src.metric)
        return Plan(src.actions)
    cs = []
    for c, pool in handed_out(src, e):
        x = Coll.__new__(Coll)
        x.c, x.pool, x.view, x.shape, x.pool2 = c, pool, False, "own", e.consts
        cs.append(x)
    return cs, chained


def handed_out(o, e):
    """The changeable collections an object's properties give its user (with elements to add to them)."""
    out = []
    for k in sorted(dir(type(o))):
        if k.startswith("_") or not isinstance(getattr(type(o), k), property):
            continue
        try:
            c = getattr(o, k)
        except Exception:
            continue
        if isinstance(c, (list, set, dict)):
            pool = {"types": ["zz1"], "functions": e.by.get("NumericFunction", []), "actions": e.by.get("Action", [])
                    if type(o).__name__ == "Domain" else [("zz", [])], "type_tags": ["zz1"], "variables": e.vars,
                    "parameters": e.vars}.get(k, e.consts)
            out.append((c, pool))
            if isinstance(c, list):
                for x in c:
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], list):
                        out.append((x[1], e.consts))
    if isinstance(o, list):
        out.append((o, [None]))
        for x in o:
            out += handed_out(x, e)
    return out


def use(u, x, twin, e, r):
    """A reading operation on x; the twin takes the place of x when the reference is computed."""
    r = random.Random(r)
    if u == "str":
        return [str(y) for y in x] if isinstance(x, list) else str(x)
    if u == "repr":
        return repr(x) if not sets_in_repr(x) else str(x)
    if u == "hash":
        return hash(x) if O.hashable(x) else None
    if u == "eq":
        return [x == twin, twin == x, x != twin]
    if u == "value":
        return F.fp(x)
    if u == "inset":
        return [x in {twin: 1}, twin in {x}] if O.hashable(x) else [x in [twin]]
    if u == "pickle":
        return F.fp(pickle.loads(pickle.dumps(x, r.randrange(6))))
    if u == "deepcopy":
        return F.fp(copy.deepcopy(x))
    n = type(x).__name__
    if u == "check":
        if n == "Problem":
            return x.check(O.pick([e.root["domain"], e.root["domain2"]], r.randrange(2)))
        if n == "Plan":
            return x.check(e.root["domain"], e.root["problem"])
        if n == "Domain":
            return [e.root["problem"].check(x) if e.root["problem"].domain_name == x.name else None,
                    e.root["plan"].check(x, e.root["problem"])]
        return None
    if n == "Plan":
        return x.instantiate(e.root["domain"])
    if n == "Domain":
        return e.root["plan"].instantiate(x)
    if n == "Action":
        return x.instantiate([O.pick(e.consts, r.randrange(99)) for _ in x.parameters])
    if hasattr(x, "instantiate"):
        return x.instantiate({})
    return None


def sets_in_repr(x):
    """The order of a set's elements in a repr() is nobody's promise."""
    return not (type(x).__name__ in ("Variable", "Constant", "Predicate") or isinstance(x, list))


def twin_refs(case, e, colls, make):
    """In a pristine child: the twin's value and what every reading operation gives on it."""
    made = W.outcome(lambda: make([c.twin() for c in colls]))
    if made[0] == "err":
        return made, None, None
    sim = kernel.Sim(budget=30_000_000, gran=case["gran"])
    with sim:
        t = sim.call_main(lambda: make([c.twin() for c in colls]))
        t2 = sim.call_main(lambda: make([c.twin() for c in colls]))
        refs = [[sim.call_main(lambda: W.outcome(lambda: use(u, t, t2, e, r))) for u, _, r in ops] for ops in case["readers"]]
        first = [sim.call_main(lambda: W.outcome(lambda: use(u, t, t2, e, 1))) for u in case["first"]]
    return made, refs, [first, facts(t, t2, e), sim.step]


def facts(x, twin, e):
    return [[u, W.outcome(lambda: use(u, x, twin, e, 3))] for u in ("value", "str", "hash", "eq", "inset", "check", "inst", "pickle")]


def fact_diff(got, ref):
    for (u, a), (_, b) in zip(got, ref):
        d = W.differ(a, b)
        if d:
            return f"{u}: {d}"
    return None


def stage(case):
    seams.SALT[0] = case["salt"]
    e = O.Env(case["texts"])
    skip = {"viol": None, "stats": {"unusable": 1}, "digest": "unusable", "nontrivial": False}
    if not O.usable(e):
        return skip
    colls, make = maker(case, e)
    s, ref = in_child(twin_refs, case, e, colls, make)
    if s != "ok":
        if s == "harness" and "SimStop" not in str(ref):
            raise RuntimeError(ref)
        return dict(skip, stats={"ref_stuck": 1}, digest="ref")
    made, refs, more = ref
    st = {"kind:" + case["kind"]: 1}
    if made[0] == "err":
        return dict(skip, stats={"invalid": 1}, digest="invalid " + made[1])
    first, ffacts, total = more
    twin = make([c.twin() for c in colls] if case["kind"] != "parse" else None)
    before = [c.content() for c in colls]
    viol, objs, log = None, [], []

    def same_colls(when):
        if case["kind"] == "chain":
            return None
        for c, b in zip(colls, before):
            if c.content() != b:
                return ["caller", f"{when}: a collection the caller passed was itself changed, now {W.short(list(c.c))}"]

    def making(fault=None):
        got = []

        def fn():
            got.append(make(colls))
        out = W.outcome(fn)
        return (got[0] if got else None), out

    sim = W.sim_for(case, total * max(1, len(case["readers"])), total * 8 + 400_000)
    with sim:
        # making
        fired = False
        if case["fault"]:
            x, out = sim.call_main(making, case["fault"])
            fired = bool(sim.last_fault and sim.last_fault.fired)
            log.append(["aborted", fired, out[0]])
            viol = same_colls(f"after a construction that was aborted ({out})")
            if out[0] == "ok":
                objs.append(x)
        if not viol and case["par"] and case["n"] > 1:
            f = sim.run_threads([lambda t: making() for _ in range(case["n"])])
            if f:
                viol = ["blocked", f"making {case['kind']} from the same collections in {case['n']} threads: {f}"]
            else:
                outs = [t.result for t in sim.threads]
        elif not viol:
            outs = [sim.call_main(making) for _ in range(case["n"])]
        if not viol:
            for x, out in outs:
                if out[0] != "ok":
                    viol = ["make", f"making {case['kind']} from the same collections once more gives {out}"]
                else:
                    objs.append(x)
        viol = viol or same_colls("after making the objects")
        if not viol:
            for u, ref1 in zip(case["first"], first):
                for x in objs:
                    d = W.differ(sim.call_main(lambda: W.outcome(lambda: use(u, x, twin, e, 1))), ref1)
                    if d and not viol:
                        viol = ["value", f"{case['kind']}, {u} right after it was made: {d}"]
        # using and changing
        if not viol:
            own = case["own"] if len(objs) > 1 else []
            readable = objs[1:] if own else objs
            todo = [x for x in (case["changes"], own) if x]
            nc = [0, 0]

            def changer(changes, mine):
                def body(t):
                    if case["kind"] == "parse" and not mine:
                        for _, how, r in changes[:3]:
                            k = random.Random(r).choice(["domain", "problem", "domain2", "problem2", "plan"])
                            W.outcome(lambda: W.parser(k.rstrip("2"), 0)(case["texts"][k]))
                            nc[0] += 1
                        return None
                    ts = handed_out(objs[0], e) if mine else targets(colls)
                    for i, how, r in changes:
                        if ts:
                            c, pool = ts[i % len(ts)]
                            nc[1] += change(c, how, random.Random(r), pool)
                            nc[0] += 1
                        kernel.io_point()
                    return None
                return body

            def reader(ops):
                return lambda t: [W.outcome(lambda: use(u, readable[i % len(readable)], twin, e, r)) for u, i, r in ops]
            fns = [changer(c, c is own) for c in todo] + [reader(ops) for ops in case["readers"]]
            failure = sim.run_threads(fns)
            st["changes"] = nc[0]
            log.append(["failure", failure])
            if failure:
                viol = ["blocked", f"{failure} after {sim.step} steps while {case['kind']} was used and its collections changed"]
            else:
                for t in sim.threads[:len(todo)]:
                    if isinstance(t.result, tuple):
                        raise RuntimeError(t.result)
                for j, t in enumerate(sim.threads[len(todo):]):
                    if isinstance(t.result, tuple):
                        raise RuntimeError(t.result)
                    for (u, i, _), got, want in zip(case["readers"][j], t.result, refs[j]):
                        d = W.differ(got, want)
                        log.append([u, got[0]])
                        if d and not viol:
                            viol = ["value", f"{case['kind']}, {u} while the collections it was made from were changed: {d}"]
    W.sched_stats(sim, st)
    if not viol:
        for n, x in enumerate(readable):
            d = fact_diff(facts(x, twin, e), ffacts)
            if d:
                viol = ["value", f"{case['kind']} no. {n} after the collections it was made from were changed"
                                 f"{' (and what another object from them hands out)' if own else ''}: {d}"]
                break
        if not viol:  # what is made from the changed collections has their content
            if case["kind"] == "chain" or nc[1]:
                pass
            elif case["kind"] == "parse":
                x = make([])
                d = fact_diff(facts(x, twin, e), ffacts)
                if d:
                    viol = ["value", f"parsed again: {d}"]
            else:
                got = [W.outcome(lambda: make(q)) for q in (colls, [c.twin() for c in colls])]
                d = W.differ(got[0], got[1])
                if d:
                    viol = ["stale", f"{case['kind']} made from the changed collections: {d}"]
    st["fault:aborted construction"] = int(fired)
    st["objects"] = len(objs)
    return {"viol": viol, "stats": st, "log": log, "sig": runner.digest([sim.sig, case["kind"], case["changes"]]),
            "switches": sim.switch_log, "digest": runner.digest([log, viol, sim.sig, sim.step]),
            "nontrivial": bool(objs) and st.get("changes", 0) > 0}


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=90)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    return out[1]


def shrink(case):
    def cands():
        for k in ("fault",):
            if case[k]:
                yield dict(case, **{k: None})
        if case["par"]:
            yield dict(case, par=False)
        if case["n"] > 1:
            yield dict(case, n=case["n"] - 1)
        for k in ("first", "own", "readers"):
            for x in W.without(case[k]):
                yield dict(case, **{k: x})
        for x in W.without(case["changes"]):
            if x:
                yield dict(case, changes=x)
        for j, ops in enumerate(case["readers"]):
            for o in W.without(ops):
                if o:
                    yield dict(case, readers=case["readers"][:j] + [o] + case["readers"][j + 1:])
        if case["gran"] != "line":
            yield dict(case, gran="line")
    for c in cands():
        yield from W.schedules(c)
    t = case["texts"]
    for k in t:
        for u in W.shrink_text(t[k]):
            yield dict(case, texts=dict(t, **{k: u}))
