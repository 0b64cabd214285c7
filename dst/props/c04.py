"""C04: the formatted text is the same in every process, whatever the hash seed, listing order or route to the object."""
import copy
import pickle
import random

from .. import fp as F
from .. import gen as G
from .. import kernel, runner, seams
from ..work import *  # noqa
from .. import work as W

HS = 4
RUNS = {"quick": (2000, 150), "thorough": (50000, 3000)}
RULE = ("one case = one generated model and 3-5 incarnations, each a process with its own hash seed and set-order salt, that comes by "
        "the object in its own way: parsing, parsing a permuted listing, building it from shuffled collections, a pickle made by "
        "another incarnation, copies; every formatted text must be the same bytes. Non-trivial: accepted, and two incarnations differ "
        "in hash seed, salt or route")
MEASURE = "distinct (model, incarnation set) digests"
REAL = W.REAL
STUB = ["hash() salted (seam)"]
ROUTES = ["parse", "parse", "permute", "permute", "api", "pickle", "copy", "cli"]


def gen(rng, i, tier, hs):
    kind = rng.choice(["domain", "domain", "domain", "problem", "problem", "plan"])
    dm = G.gen_domain(rng)
    if kind == "domain":
        m = dm
        if rng.random() < 0.15:
            G.implicit_parents(rng, m)
    else:
        pm = G.gen_problem(rng, dm)
        m = pm if kind == "problem" else G.gen_plan(rng, dm, pm)
    inc = []
    for k in range(rng.choice([3, 3, 4, 5])):
        route = "parse" if k == 0 else rng.choice(ROUTES)
        if route == "cli" and (kind != "domain" or rng.random() < 0.7):
            route = "permute"
        inc.append({"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "route": route, "r": rng.randrange(1 << 30)})
    return {"kind": kind, "model": m, "inc": inc}


def text_of(m, inc):
    r = random.Random(inc["r"])
    return G.render(G.permute(m, r) if inc["route"] in ("permute", "cli") else m, G.Style(r))


def rebuild(o, rng):
    """The same object made from its parts, in shuffled collections of another sort."""
    from pddl.core import Domain, Plan, Problem

    def coll(xs):
        xs = list(xs)
        rng.shuffle(xs)
        return rng.choice([list, tuple, set, frozenset])(xs)

    def dct(d):
        xs = list(d.items())
        rng.shuffle(xs)
        return dict(xs)
    if isinstance(o, Domain):
        return Domain(o.name, requirements=coll(o.requirements), types=dct(o.types), constants=coll(o.constants),
                      predicates=coll(o.predicates), derived_predicates=coll(o.derived_predicates),
                      functions=dct(o.functions), actions=coll(o.actions))
    if isinstance(o, Problem):
        kw = {}
        if o.requirements:
            kw["requirements"] = coll(o.requirements)
        return Problem(o.name, domain_name=o.domain_name, objects=coll(o.objects), init=coll(o.init),
                       goal=o.goal, metric=o.metric, **kw)
    return Plan([(n, list(ps)) for n, ps in o.actions])


def stage(kind, inc, text, pick):
    seams.SALT[0] = inc["salt"]
    rng = random.Random(inc["r"])
    from pddl import formatter
    fmt = getattr(formatter, kind + "_to_string")
    sim = kernel.Sim(budget=W.budget_for(text) * 4)
    with sim:
        def go():
            try:
                if inc["route"] == "cli":
                    from . import c09
                    return c09.cli_text(text)
                if inc["route"] == "pickle" and pick is not None:
                    o = pickle.loads(pick)
                else:
                    o = W.parser(kind)(text)
                if inc["route"] == "api":
                    o = rebuild(o, rng)
                elif inc["route"] == "copy":
                    o = rng.choice([copy.copy, copy.deepcopy])(o)
                a, b = (str(o), fmt(o)) if rng.random() < 0.5 else (fmt(o), str(o))
                if a != b or str(o) != a:
                    return ["twice", a, b]
                return ["ok", a, pickle.dumps(o, rng.randrange(6))]
            except Exception as e:
                return ["err", type(e).__name__, str(e)[:300]]
        try:
            r = sim.call_main(go)
        except (kernel.SimStop, kernel.SimDeadlock) as e:
            r = ["stuck", str(e)]
    return r, sim.step


def run(case, pool):
    st, log, viol = {}, [], None
    ref = pick = None
    for k, inc in enumerate(case["inc"]):
        text = text_of(case["model"], inc)
        out = pool.call(inc["hs"], __name__, "stage", case["kind"], inc, text, pick)
        if out[0] != "ok":
            viol = ["crash", f"incarnation {k}: {out}"]
            break
        r, steps = out[1]
        st["steps"] = st.get("steps", 0) + steps
        st["incarnations"] = st.get("incarnations", 0) + 1
        st["probe:route_" + inc["route"]] = st.get("probe:route_" + inc["route"], 0) + 1
        log.append([inc["route"], r[0], runner.digest(r[1])])
        if r[0] == "twice":
            viol = ["twice", f"incarnation {k}: formatting the same object twice gives\n{r[1]}\n---\n{r[2]}"]
            break
        if k == 0:
            if r[0] != "ok":
                break
            ref, pick = r[1], r[2]
            continue
        if r[0] != "ok":
            viol = ["fails", f"incarnation {k} ({inc['route']}) fails: {r[1:]}\n{inc['text']}"]
            break
        if r[1] != ref:
            viol = ["text", f"incarnation {k} ({inc['route']}, hash seed {inc['hs']}) formats\n{r[1]}\n--- but incarnation 0\n{ref}"]
            break
        if inc["route"] not in ("cli",) and len(r) > 2 and r[2] and inc["r"] % 2:
            pick = r[2]
    return {"viol": viol, "stats": st, "log": log, "digest": runner.digest([log, viol]), "sig": runner.digest([case["inc"], case["model"]]),
            "nontrivial": ref is not None}


def shrink(case):
    inc = case["inc"]
    if len(inc) > 2:
        for k in range(1, len(inc)):
            yield dict(case, inc=inc[:k] + inc[k + 1:])
    for k, c in enumerate(inc):
        if k and c["route"] != "parse":
            yield dict(case, inc=inc[:k] + [dict(c, route="parse")] + inc[k + 1:])
    for m in G.shrink_model(case["model"]):
        yield dict(case, model=m)
