"""A pool of related model objects and the operations a program may perform on it (shared by C07, C10, C11, C12, C13)."""
import copy
import operator
import pickle
import random

from . import fp as F
from . import gen as G
from . import work as W

KIDS = {
    "Domain": ("constants", "predicates", "functions", "derived_predicates", "actions"),
    "Problem": ("objects", "init", "goal", "metric"),
    "Plan": ("actions",), "Action": ("parameters", "precondition", "effect"),
    "Predicate": ("terms",), "DerivedPredicate": ("predicate", "condition"), "NumericFunction": ("terms",),
    "Metric": ("expression",), "When": ("condition", "effect"), "Forall": ("variables", "effect"),
    "ForallCondition": ("variables", "condition"), "ExistsCondition": ("variables", "condition"), "Not": ("argument",),
}


def kids(o):
    n = type(o).__name__
    if isinstance(o, str) or o is None:
        return []
    if isinstance(o, (list, tuple, set, frozenset, dict)):
        return list(o)
    if n in KIDS:
        return [getattr(o, k) for k in KIDS[n]]
    if n == "EqualTo" and hasattr(o, "left"):
        return [o.left, o.right]
    if hasattr(o, "operands"):
        return list(o.operands)
    return []


def is_model(o):
    return type(o).__module__.startswith("pddl.") and not isinstance(o, str)


def nodes(roots):
    """Every model object reachable from the roots, one per distinct value, in an order that does not depend on hashes."""
    out = {}

    def walk(o):
        if is_model(o):
            k = repr(F.fp(o))
            if k in out:
                return
            out[k] = o
        for c in kids(o):
            walk(c)
    for r in roots:
        walk(r)
    return [out[k] for k in sorted(out)]


def hashable(o):
    return type(o).__hash__ is not None


class Env:
    """The pool.  texts: domain, problem, plan, and a second domain and problem (another world, or a variation)."""

    def __init__(self, texts):
        self.root = {}
        for k, t in texts.items():
            try:
                self.root[k] = W.parser(k.rstrip("2"))(t)
            except Exception:
                self.root[k] = None
        self.nodes = nodes([r for _, r in sorted(self.root.items()) if r is not None])
        by = {}
        for o in self.nodes:
            by.setdefault(type(o).__name__, []).append(o)
        self.by = by
        from pddl.logic.base import Formula
        self.formulas = [o for o in self.nodes if isinstance(o, Formula)]
        self.goals = [o for o in self.formulas if type(o).__name__ in
                      ("Predicate", "And", "Or", "Not", "Imply", "ForallCondition", "ExistsCondition")] or self.formulas
        self.consts = by.get("Constant", [])
        self.vars = by.get("Variable", [])
        self.hashables = [o for o in self.nodes if hashable(o)]
        self.set = self.dict = None

    def warm(self):
        """Put everything in a set and a dictionary that live as long as the pool."""
        self.set = set(self.hashables)
        self.dict = {o: i for i, o in enumerate(self.hashables)}


def pick(xs, i):
    return xs[i % len(xs)] if xs else None


READ = ["str", "str", "repr", "hash", "hash", "eq", "eq", "ne", "lt", "sorted", "inset", "copy", "deepcopy", "pickle", "pickle",
        "check_problem", "check_problem", "check_fresh", "check_plan", "plan_inst", "action_inst", "action_inst", "formula_inst", "formula_inst",
        "pred_call", "combine", "combine", "fmt", "fmt", "build", "build", "attrs", "tags", "dedupe"]


def gen_op(rng, names=READ):
    op = {"op": rng.choice(names), "a": rng.randrange(1 << 20), "b": rng.randrange(1 << 20), "r": rng.randrange(1 << 30)}
    if rng.random() < 0.4:
        op["ty"] = rng.randrange(1 << 20)
    return op


def target(e, op, xs=None):
    """One of the objects xs (default: any): one of all of them, or a kind of object first."""
    if "ty" in op:
        ty = sorted({type(o).__name__ for o in xs} if xs else e.by)
        k = ty[op["ty"] % len(ty)]
        return pick([o for o in xs if type(o).__name__ == k] if xs else e.by[k], op["a"])
    return pick(xs or e.nodes, op["a"])


def do(op, e):
    """Perform one operation; the value returned is fingerprinted by the caller."""
    n, r = op["op"], random.Random(op["r"])
    a, b = target(e, op), pick(e.nodes, op["b"])
    same = pick(e.by[type(a).__name__], op["b"])
    if n == "str":
        return str(a)
    if n == "repr":
        return repr(a)
    if n == "hash":
        return hash(target(e, op, e.hashables))
    if n == "eq":
        return [a == same, same == a, a == b]
    if n == "ne":
        return [a != same, a != a]
    if n == "lt":
        return [a < same, same < a]
    if n == "sorted":
        return [str(x) for x in sorted(e.by[type(a).__name__])]
    if n == "inset":
        a = target(e, op, e.hashables)
        s, d = e.set, e.dict
        if s is None or r.random() < 0.3:
            x = [pick(e.hashables, r.randrange(1 << 20)) for _ in range(3)] + [a]
            s, d = set(x), {y: 1 for y in x}
            return [a in s, a in d]
        return [a in s, d.get(a), a in frozenset(list(s))]
    if n == "copy":
        c = copy.copy(a)
        return [F.fp(c), c == a]
    if n == "deepcopy":
        c = copy.deepcopy(a)
        return [F.fp(c), c == a]
    if n == "pickle":
        c = pickle.loads(pickle.dumps(a, r.randrange(6)))
        return [F.fp(c), c == a, hash(c) == hash(a) if hashable(a) else None]
    if n == "check_problem":
        p, d = pick([e.root["problem"], e.root["problem2"]], op["a"]), pick([e.root["domain"], e.root["domain2"]], op["b"])
        return p.check(d)
    if n == "check_fresh":  # domains that exist for the duration of the check only
        p = pick([e.root["problem"], e.root["problem2"]], op["a"])
        cp = r.choice([copy.copy, copy.copy, copy.deepcopy])
        for _ in range(r.randint(1, 3)):
            out = p.check(cp(r.choice([e.root["domain"], e.root["domain2"]])))
        return out
    if n == "check_plan":
        d = pick([e.root["domain"], e.root["domain"], e.root["domain2"]], op["b"])
        p = pick([e.root["problem"], e.root["problem"], e.root["problem2"]], op["a"])
        return e.root["plan"].check(d, p)
    if n == "plan_inst":
        return e.root["plan"].instantiate(pick([e.root["domain"], e.root["domain2"]], op["b"]))
    if n == "action_inst":
        act = pick(e.by.get("Action"), op["a"])
        if act is None:
            return None
        k = len(act.parameters) + (r.choice([-1, 1]) if r.random() < 0.2 else 0)
        fit = []
        for p in list(act.parameters)[:max(0, k)]:
            c = [x for x in e.consts if not p.type_tags or x.type_tags & p.type_tags]
            fit.append(pick(c if c and r.random() < 0.85 else e.consts, r.randrange(1 << 20)))
        fit += [pick(e.consts, r.randrange(99)) for _ in range(k - len(fit))]
        return act.instantiate(fit)
    if n == "formula_inst":
        f = target(e, op, e.formulas)
        vs = [x for x in nodes([f]) if type(x).__name__ == "Variable"]
        m = {}
        for v in vs:
            c = [x for x in e.consts + e.vars if not v.type_tags or x.type_tags & v.type_tags]
            if r.random() < 0.8:
                m[v] = pick(c if c and r.random() < 0.85 else e.consts + e.vars, r.randrange(1 << 20))
        return f.instantiate(m)
    if n == "pred_call":
        p = pick(e.by.get("Predicate", []) + e.by.get("NumericFunction", []), op["a"])
        k = len(p.terms) + (1 if r.random() < 0.2 else 0)
        return p(*[pick(e.consts + e.vars, r.randrange(1 << 20)) for _ in range(k)])
    if n == "combine":
        x, y = target(e, op, e.goals), pick(e.goals, op["b"])
        f = r.choice([operator.and_, operator.or_, operator.rshift, lambda p, q: ~p, lambda p, q: ~(p & q) | q])
        return f(x, y)
    if n == "dedupe":
        from pddl.logic.base import And, OneOf, Or
        xs = [pick(e.goals, r.randrange(1 << 20)) for _ in range(r.randint(1, 4))]
        return r.choice([And, Or, OneOf])(*xs + xs[:1])
    if n == "fmt":
        from pddl import formatter
        k = r.choice(["domain", "domain2", "problem", "plan"])
        return getattr(formatter, k.rstrip("2") + "_to_string")(e.root[k])
    if n == "build":
        return build(op, e, r)
    if n == "attrs":
        ks = [k for k in dir(type(a)) if not k.startswith("_") and isinstance(getattr(type(a), k), property)]
        return getattr(a, r.choice(ks)) if ks else None
    if n == "tags":
        v = pick(e.vars, op["a"])
        return v.with_type_tags(list(pick(e.vars, op["b"]).type_tags)) if v is not None else None
    if n == "attach":
        p = pick([e.root["problem"], e.root["problem2"]], op["a"])
        p.domain = pick([e.root["domain"], e.root["domain"], e.root["domain2"], None, 7], op["b"])
        return None
    raise AssertionError(n)


def W_try(fn):
    try:
        return fn()
    except Exception as ex:
        return "error " + type(ex).__name__


def build(op, e, r):
    """New objects from parts of the pool; some combinations are invalid."""
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.logic.base import ExistsCondition, ForallCondition
    from pddl.logic.effects import Forall, When
    from pddl.logic.predicates import DerivedPredicate
    d, d2, p = e.root["domain"], e.root["domain2"], e.root["problem"]
    k = r.choice(["domain", "problem", "problem_d", "plan", "action", "forall", "exists", "when", "derived", "feff"])
    f, g = pick(e.goals, op["a"]), pick(e.goals, op["b"])
    vs = [pick(e.vars, r.randrange(1 << 20)) for _ in range(r.randint(0, 2))] if e.vars else []
    if k == "domain":
        o = d2 if r.random() < 0.3 else d
        return Domain("xx", requirements=d.requirements, types=o.types, constants=d.constants, predicates=d.predicates,
                      derived_predicates=d.derived_predicates, functions=o.functions, actions=d.actions)
    if k == "problem":
        return Problem("xx", domain_name=d.name, objects=p.objects, init=p.init, goal=f if r.random() < 0.5 else p.goal, metric=p.metric)
    if k == "problem_d":
        o = d2 if r.random() < 0.4 else d
        return Problem("xx", domain=o, objects=p.objects, init=p.init, goal=p.goal, metric=p.metric)
    if k == "plan":
        return Plan(e.root["plan"].actions)
    if k == "action":
        return Action("xx", vs, precondition=f, effect=g)
    if k == "forall":
        return ForallCondition(f, vs)
    if k == "exists":
        return ExistsCondition(f, vs)
    if k == "when":
        return When(f, g)
    if k == "feff":
        return Forall(f, vs)
    return DerivedPredicate(pick(e.by["Predicate"], op["a"]), g)


def snap(e):
    """Value of everything in the pool, for comparison (list of (label, value))."""
    out = []
    for i, o in enumerate(e.nodes):
        out.append((f"node {i} {type(o).__name__}", F.fp(o)))
    for k, o in sorted(e.root.items()):
        if o is not None:
            out.append((f"{k} text", str(o)))
        if k.startswith("problem") and o is not None:
            x = W_try(lambda: o.domain)
            out.append((f"{k} domain", x if isinstance(x, str) else [F.fp(x), [j for j, q in sorted(e.root.items()) if q is x]]))
    for i, o in enumerate(e.hashables):
        out.append((f"hash of {i} {type(o).__name__}", hash(o)))
        if e.set is not None:
            out.append((f"place of {i} {type(o).__name__} in set", o in e.set))
            out.append((f"place of {i} {type(o).__name__} in dict", e.dict.get(o)))
    for i, o in enumerate(e.nodes):
        if not (o == o) or o != o:
            out.append((f"node {i}", "differs from itself"))
    return out


def snap_diff(a, b):
    if len(a) != len(b):
        return f"{len(a)} facts became {len(b)}: {[y for x, y in zip(a, b) if x != y][:1]}"
    for (l, x), (l2, y) in zip(a, b):
        if l != l2 or x != y:
            return f"{l}: {F.diff(x, y) or (str(x)[:200] + ' became ' + str(y)[:200])}"
    return None


def gen_texts(rng, size=None):
    """Five texts: a world, and a second domain and problem that may or may not fit it."""
    dm = G.gen_domain(rng, size=size or rng.choice([1, 1, 2]))
    pm = G.gen_problem(rng, dm)
    if rng.random() < 0.2:
        G.implicit_parents(rng, dm)
    t = {"domain": G.render(dm, G.Style()), "problem": G.render(pm, G.Style()), "plan": G.render(G.gen_plan(rng, dm, pm), G.Style())}
    if rng.random() < 0.5:
        dm2 = G.gen_domain(rng, size=1)
        if rng.random() < 0.7:
            dm2["name"] = dm["name"]
        t["domain2"] = G.render(dm2, G.Style())
        pm2 = G.gen_problem(rng, dm2)
        t["problem2"] = G.render(pm2, G.Style())
    else:
        t["domain2"] = W.thin_section(rng, t["domain"]) if rng.random() < 0.5 else W.rename_tokens(rng, t["domain"])
        t["problem2"] = G.render(G.gen_problem(rng, dm), G.Style())
    return t


def usable(e):
    return all(v is not None for v in e.root.values())
