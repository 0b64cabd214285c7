"""C14: however it is started, it is the same library."""
import copy
import importlib
import os
import pickle
import pkgutil
import random
import sys

from .. import fp as F
from .. import gen as G
from .. import kernel, ops as O, runner, seams, simio
from ..zygote import in_child
from ..work import *  # noqa
from .. import work as W

HS = 2
RUNS = {"quick": (600, 150), "thorough": (30000, 3000)}
RULE = ("one case = a process in which the library is not loaded yet; then 1-7 first steps (importing any of its modules, parsing, "
        "reading a file, unpickling what another process saved, running the command, moving to another directory), with aborts at any library "
        "call of an import or a first use and read errors on the library's grammar or the files, each aborted step being repeated; "
        "every outcome is compared with a process that was started undisturbed, and afterwards every "
        "module is imported and objects made by several routes must be the same and recognise each other. Non-trivial: a step was disturbed, or "
        "there were two")
MEASURE = "distinct (steps, outcomes, executed lines) digests"
REAL = W.REAL + ["the import system"]
STUB = ["raw reads of the grammar and of data files", "hash() salted (seam)"]
KINDS = ["domain", "problem", "plan"]
DO = ["import"] * 5 + ["parse", "parse", "file", "file", "load", "load", "show", "cli", "build", "star", "chdir"]


def gen(rng, i, tier, hs):
    dm = G.gen_domain(rng, size=1)
    pm = G.gen_problem(rng, dm)
    st = G.Style()
    texts = {"domain": G.render(dm, st), "problem": G.render(pm, st), "plan": G.render(G.gen_plan(rng, dm, pm), st)}
    pf, pio = rng.choice([0, 0.4, 0.7]), rng.choice([0, 0, 0.5])
    ops = []
    for _ in range(rng.randint(1, 7)):
        k = rng.choice(KINDS)
        op = {"do": rng.choice(DO), "m": rng.randrange(1 << 20), "kind": k, "text": texts[k], "r": rng.randrange(1 << 30), "fault": None}
        if rng.random() < 0.2:
            op["text"] = G.break_text(rng, op["text"])
        if rng.random() < pf:
            op["fault"] = {"kind": rng.choice(["KeyboardInterrupt", "MemoryError", "RecursionError"]),
                           "at": int(rng.choice([20, 60, 400]) ** rng.random()), "where": rng.choice(["1", "1", "2"])}
        if rng.random() < pio:
            op[rng.choice(["io", "grammar"])] = simio.gen_hard(rng, 300) if rng.random() < 0.7 else simio.gen_soft(rng)
        ops.append(op)
    if rng.random() < 0.6:  # every module gets its turn to be the first
        ops[0].update(do="import", m=i)
    return {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "texts": texts, "ops": ops, "helper": rng.choice(KINDS)}


def modules():
    """Every module of the library except the one that is a program, by name."""
    import pddl
    names = ["pddl"] + [m.name for m in pkgutil.walk_packages(pddl.__path__, "pddl.")]
    return sorted(m for m in names if not m.endswith("__main__"))


def the(mod, attr):
    return getattr(importlib.import_module(mod), attr)


def do(op, names, saved, files, parsers=None):
    k, d = op["kind"], op["do"]
    r = random.Random(op["r"])
    if d == "chdir":  # the process goes to live elsewhere, maybe in a place that is then removed
        if not parsers:
            p = os.path.join(os.path.dirname(files["last plan"]), "elsewhere")
            os.makedirs(p, exist_ok=True)
            os.chdir(p)
            if r.random() < 0.3:
                os.rmdir(p)
        return None
    if d == "import":
        return importlib.import_module(names[op["m"] % len(names)]).__name__
    if d == "star":
        ns = {}
        exec(f"from {names[op['m'] % len(names)]} import *", ns)
        return sorted(x for x in ns if not x.startswith("__") and type(ns[x]) is not type(os))
    if d == "parse":
        if parsers:
            return parsers(k)(op["text"])
        return the("pddl.parser." + k, k.capitalize() + "Parser")()(op["text"])
    if d == "file":
        if parsers:
            return parsers(k)(op["text"])
        return the("pddl", "parse_" + k)(files[id(op)])
    if d in ("load", "show"):
        if saved.get(k) is None:
            return None
        o = pickle.loads(saved[k])
        if d == "load":
            return o
        return [str(o), the("pddl.formatter", k + "_to_string")(copy.deepcopy(o))]
    if d == "cli":
        cli = the("pddl.__main__", "cli")
        try:
            cli.main(args=["-q", files[id(op)]], prog_name="pddl", standalone_mode=False)
        except SystemExit as e:
            return ["exit", str(e.code)]
        return None
    # build: through the constructors
    if r.random() < 0.4:
        return words(r.sample(range(200), 5))
    Variable, Predicate = the("pddl.logic.terms", "Variable"), the("pddl.logic.predicates", "Predicate")
    And, Action = the("pddl.logic.base", "And"), the("pddl.action", "Action")
    x = Variable("x", [r.choice(["ta", "tb"])])
    p, q = Predicate("p", x), Predicate("q")
    a = Action("a", [x], precondition=And(p, q), effect=~q if hasattr(q, "__invert__") else q)
    return the("pddl.core", "Domain")("d", requirements=[the("pddl.requirements", "Requirements").TYPING], types={"ta": None, "tb": None},
                                      predicates=[p, q], actions=[a])


def words(sel=None):
    """Which of the words of the language may be names."""
    out, ws = [], sorted(v.value for v in the("pddl.parser.symbols", "Symbols")) + ["a", "a-b", "1", "", "define2", "?x", ":adl"]
    for w in ws if sel is None else [ws[i % len(ws)] for i in sel]:
        for m, c in (("pddl.logic.terms", "Constant"), ("pddl.logic.terms", "Variable"), ("pddl.logic.predicates", "Predicate"),
                     ("pddl.custom_types", "parse_type"), ("pddl.custom_types", "parse_function")):
            try:
                out.append(str(the(m, c)(w)))
            except (MemoryError, RecursionError):
                raise
            except Exception as e:
                out.append([type(e).__name__, str(e)])
    return out


def started(case, files):
    """An undisturbed start: what each step gives, what the other process saved, and what the last look gives."""
    names = modules()
    saved = {}
    for k in KINDS:
        try:
            saved[k] = pickle.dumps(W.parser(k)(case["texts"][k]), random.Random(case["salt"]).randrange(6))
        except Exception:
            saved[k] = None
    sim = kernel.Sim(budget=60_000_000)
    with sim:
        outs = [sim.call_main(lambda: W.outcome(lambda: do(op, names, saved, files, W.parser))) for op in case["ops"]]
        step = sim.step
        last = sim.call_main(lambda: W.outcome(lambda: look(case, saved, names, files, W.parser)))
    return names, saved, outs, last, step


def look(case, saved, names, files, parsers=None):
    """Everything is imported and used; objects made in four ways."""
    out = []
    for m in names:
        importlib.import_module(m)
    out.append(words())
    for k in KINDS:
        if saved[k] is None:
            continue
        parser = parsers(k) if parsers else the("pddl.parser." + k, k.capitalize() + "Parser")()
        got = [("parser", parser(case["texts"][k])), ("pickle", pickle.loads(saved[k])), ("copy", copy.deepcopy(parser(case["texts"][k])))]
        if k == case["helper"]:
            got.append(("helper", parser(case["texts"][k]) if parsers else the("pddl", "parse_" + k)(files["last " + k])))
        c = the("pddl.core", k.capitalize())
        for w, o in got:
            out.append([k, w, F.fp(o), str(o), isinstance(o, c), [o == p for _, p in got], [hash(o) == hash(p) for _, p in got]
                        if O.hashable(o) else None])
            parts = O.nodes([o])
            out.append([k, w, all(type(p) is getattr(sys.modules[type(p).__module__], type(p).__name__, None) for p in parts)])
    return out


def stage(case):
    seams.SALT[0] = case["salt"]
    import pddl.parser
    grammar = os.path.realpath(pddl.parser.GRAMMAR_FILE)
    st, log, viol = {}, [], None
    with simio.Disk() as disk:
        files = {}
        for b, op in enumerate(case["ops"]):
            files[id(op)] = disk.put(f"{b}.pddl", op["text"].encode("utf-8", "surrogateescape"))
        for k in KINDS:
            files["last " + k] = disk.put("last-" + k, case["texts"][k].encode())
        s, ref = in_child(started, case, files)
        if s != "ok":
            if s == "harness" and "SimStop" not in str(ref):
                raise RuntimeError(ref)
            return {"viol": None, "stats": {"ref_stuck": 1}, "digest": "ref", "nontrivial": False}
        names, saved, refs, last, total = ref
        if last[0] != "ok":
            raise RuntimeError(f"the undisturbed process fails: {last}")
        seams.purge()
        budget = 3 * sum(W.budget_for(op["text"]) for op in case["ops"]) + len(case["ops"]) * 1_000_000
        sim = kernel.Sim()
        with sim:
            for b, op in enumerate(case["ops"]):
                for fault in ([op["fault"], None] if op["fault"] else [None]):
                    disk.failed = False
                    if fault is op["fault"]:  # the repetition after an abort is undisturbed
                        if op.get("io"):
                            disk.plan(files[id(op)], op["io"])
                        if op.get("grammar"):
                            disk.plans[grammar] = [op["grammar"]]
                    try:
                        got = sim.call_main(lambda: W.outcome(lambda: do(op, names, saved, files)), fault, budget)
                    except (kernel.SimStop, kernel.SimDeadlock) as e:
                        viol = ["stuck", f"step {b} ({op['do']}) never ended ({e})"]
                        break
                    disk.plans.clear()
                    f = sim.last_fault
                    fired = bool(f and f.fired)
                    what = op["do"] + " " + (names[op["m"] % len(names)] if op["do"] in ("import", "star") else op["kind"])
                    log.append([what, got[0], got[1] if got[0] == "err" else "", fired, disk.failed])
                    if got[0] == "err" and (fired or disk.failed):
                        st["disturbed"] = st.get("disturbed", 0) + 1
                        continue
                    st["compared"] = st.get("compared", 0) + 1
                    d = W.differ(got, refs[b])
                    if d:
                        viol = ["start", f"step {b} ({what}) after {log[:-1]}: {d}"]
                    if d or not fired:
                        break
                if viol:
                    break
        W.sched_stats(sim, st)
        if not viol:
            sim2 = kernel.Sim()
            with sim2:
                try:
                    got = sim2.call_main(lambda: W.outcome(lambda: look(case, saved, names, files)), None, 60_000_000)
                    d = W.differ(got, last)
                    if d:
                        viol = ["after", f"afterwards, with everything imported, after {log}: {d}"]
                except (kernel.SimStop, kernel.SimDeadlock) as e:
                    viol = ["stuck", f"afterwards a call never ends ({e})"]
            st["steps"] = st.get("steps", 0) + sim2.step
        for k, v in disk.stats.items():
            st[k] = st.get(k, 0) + v
    for op in case["ops"]:
        st["probe:" + op["do"]] = st.get("probe:" + op["do"], 0) + 1
    return {"viol": viol, "stats": st, "log": log, "sig": runner.digest([log, sim.sig]), 
            "digest": runner.digest([log, viol, sim.sig, sim.step]),
            "nontrivial": bool(st.get("disturbed") or len(log) > 1)}


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=120)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    return out[1]


def shrink(case):
    ops = case["ops"]
    for x in W.without(ops):
        yield dict(case, ops=x)
    for b, op in enumerate(ops):
        for k in ("fault", "io", "grammar"):
            if op.get(k):
                yield dict(case, ops=ops[:b] + [dict(op, **{k: None})] + ops[b + 1:])
    for k in KINDS:
        for u in W.shrink_text(case["texts"][k]):
            yield dict(case, texts=dict(case["texts"], **{k: u}))
