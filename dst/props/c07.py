"""C07: pickles and copies."""
import copy
import pickle
import random

from .. import fp as F
from .. import kernel, ops as O, runner, seams
from ..zygote import in_child
from ..work import *  # noqa
from .. import work as W

HS = 3
RUNS = {"quick": (2000, 150), "thorough": (30000, 3000)}
RULE = ("one case = a process in which 1-3 threads use a pool of all objects of two domains, two problems and a plan, and pickle (all "
        "protocols, inside containers or not) or copy some of them at seeded moments under a seeded schedule; the pickles are then loaded by "
        "1-2 further processes in a row, each with its own hash seed and set order, that have built the same objects themselves from text: "
        "equality, hash, sets, dictionaries, containers in both directions, text, value. Non-trivial: at least one pickle or copy was made")
MEASURE = "distinct (schedule hash, pickled parts, hash seeds) digests"
REAL = W.REAL
STUB = ["thread scheduling and locks (simulator)", "hash() salted (seam), differently in each process"]
USE = ["str", "hash", "hash", "eq", "inset", "attrs", "combine", "check_problem", "plan_inst", "action_inst", "formula_inst", "repr", "lt"]
WRAP = ["none", "none", "none", "list", "set", "dict", "twice", "deep"]


def gen(rng, i, tier, hs):
    threads = []
    tight = rng.random() < 0.25  # several threads on one or two objects
    hot = [rng.randrange(1 << 20) for _ in range(rng.choice([1, 2]) if tight else 3)] if tight or rng.random() < 0.6 else None
    for _ in range(rng.choice([2, 3]) if tight else rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 8)):
            if rng.random() < 0.55:
                op = {"op": rng.choice(["dump", "dump", "dump", "copy_", "deepcopy_"]), "a": rng.randrange(1 << 20),
                      "b": 0, "r": 0, "proto": rng.randrange(6), "wrap": rng.choice(WRAP), "root": rng.random() < 0.25}
            else:
                op = O.gen_op(rng, ["hash", "hash", "inset", "eq", "str"] if tight else USE)
            if hot:
                op["a"], op["b"] = rng.choice(hot), rng.choice(hot)
            ops.append(op)
        threads.append(ops)
    return {"hs": [rng.choice(hs) for _ in range(3)], "salt": [rng.randrange(1 << 30) for _ in range(3)], "texts": O.gen_texts(rng),
            "threads": threads, "warm": rng.random() < 0.4, "gran": "instr" if tight else rng.choice(["line", "line", "instr"]),
            "policy": W.gen_policy(rng), "sseed": rng.randrange(1 << 30), "chain": rng.random() < 0.4, "r": rng.randrange(1 << 30)}


def wrap(o, how):
    if how == "list":
        return [o, o]
    if how == "set" and O.hashable(o):
        return {o}
    if how == "dict" and O.hashable(o):
        return {o: o}
    if how == "twice":
        return (o, o)
    if how == "deep":
        return {"x": [(o,)]}
    return o


def unwrap(x):
    if isinstance(x, (list, tuple)):
        return x[0]
    if isinstance(x, (set, frozenset)):
        return next(iter(x))
    if isinstance(x, dict):
        return x["x"][0][0] if list(x) == ["x"] else next(iter(x))
    return x


def containers(o):
    """The collections inside an object, in the same order for equal objects."""
    out = []
    seen = set()

    def walk(x):
        if O.is_model(x):
            k = repr(F.fp(x))
            if k in seen:
                return
            seen.add(k)
            n = type(x).__name__
            for a in O.KIDS.get(n, ()) + (("types",) if n == "Domain" else ()) + (("operands",) if hasattr(x, "operands") else ()):
                c = getattr(x, a)
                if isinstance(c, (set, frozenset, dict, list, tuple)):
                    out.append((k + "." + a, c))
        for y in sorted(O.kids(x), key=lambda z: repr(F.fp(z))):
            walk(y)
    walk(o)
    return out


def inter(a, b, rng, where):
    """What tells a (loaded, copied) from b (fresh, original); None if nothing does."""
    tests = []
    if O.hashable(b):
        tests += [("hash(a) == hash(b)", lambda: hash(a) == hash(b)), ("a in {b}", lambda: a in {b}), ("b in {a}", lambda: b in {a}),
                  ("{a: 1}[b]", lambda: {a: 1}.get(b) == 1), ("len({a, b}) == 1", lambda: len({a, b}) == 1),
                  ("frozenset([a]) == frozenset([b])", lambda: frozenset([a]) == frozenset([b])),
                  ("hash stays", lambda: hash(a) == hash(a))]
    tests += [("a == b", lambda: a == b), ("b == a", lambda: b == a), ("not a != b", lambda: not a != b),
              ("str", lambda: str(a) == str(b)), ("type", lambda: type(a) is type(b)),
              ("[a].index(b)", lambda: [a].index(b) == 0)]
    rng.shuffle(tests)  # which comes first matters to cached hashes
    for label, t in tests:
        try:
            if not t():
                return f"{where}: {label} fails for {type(b).__name__} {str(b)[:120]} and {str(a)[:120]}"
        except Exception as e:
            return f"{where}: {label} raises {type(e).__name__} for {type(b).__name__} {str(b)[:120]}"
    d = F.diff(F.fp(a), F.fp(b))
    if d:
        return f"{where}: value {d}"
    ca, cb = containers(a), containers(b)
    if [k for k, _ in ca] != [k for k, _ in cb]:
        return f"{where}: parts differ for {type(b).__name__} {str(b)[:120]}"
    for (k, x), (_, y) in zip(ca, cb):
        for p, q in ((x, y), (y, x)):
            for el in p:
                if el not in q:
                    return f"{where}: an element of .{k.rsplit('.', 1)[1]} is not found in its counterpart: {str(el)[:120]}"
        if not isinstance(x, list) and not x == y:
            return f"{where}: .{k.rsplit('.', 1)[1]} differ"
    return None


def make(case):
    seams.SALT[0] = case["salt"][0]
    e = O.Env(case["texts"])
    if not O.usable(e):
        return None
    if case["warm"]:
        e.warm()
    s, before = in_child(O.snap, e)
    if s != "ok":
        raise RuntimeError(before)

    MAKE = ("dump", "copy_", "deepcopy_")
    s, refs = in_child(lambda: [[None if op["op"] in MAKE else W.outcome(lambda: O.do(op, e)) for op in ops] for ops in case["threads"]])
    if s != "ok":
        if s == "harness":
            raise RuntimeError(refs)
        return None

    def op_do(op):
        if op["op"] not in MAKE:
            return ("use", None, W.outcome(lambda: O.do(op, e)))
        o = O.pick([e.root[k] for k in sorted(e.root)] if op["root"] else e.nodes, op["a"])
        try:
            if op["op"] == "dump":
                return ("dump", o, pickle.dumps(wrap(o, op["wrap"]), op["proto"]))
            return (op["op"], o, copy.copy(o) if op["op"] == "copy_" else copy.deepcopy(o))
        except Exception as x:
            return ("failed", o, f"{op['op']}: {type(x).__name__}: {x}")
    sim = W.sim_for(case, 150 * sum(map(len, case["threads"])), 60_000_000)
    with sim:
        failure = sim.run_threads([(lambda ops: lambda t: [op_do(op) for op in ops])(ops) for ops in case["threads"]])
    st, viol, blobs = {}, None, []
    W.sched_stats(sim, st)
    rng = random.Random(case["r"])
    if failure:
        viol = ["blocked", failure]
    else:
        for a, (ops, t) in enumerate(zip(case["threads"], sim.threads)):
            if isinstance(t.result, tuple):
                raise RuntimeError(t.result)
            for b, (op, got) in enumerate(zip(ops, t.result)):
                how, o, v = got
                if how == "use":
                    d = W.differ(v, refs[a][b])
                    if d and not viol:
                        viol = ["disturbed", f"thread {a}, operation {b} ({op['op']}) while objects are pickled and copied: {d}"]
                    continue
                st["probe:" + how] = st.get("probe:" + how, 0) + 1
                if how == "failed":
                    viol = viol or ["fails", f"thread {a}, operation {b}: {v} for {type(o).__name__} {str(o)[:200]}"]
                elif how == "dump":
                    blobs.append((repr(F.fp(o)), v, f"thread {a}, operation {b}, protocol {op['proto']}, in {op['wrap']}"))
                elif not viol:
                    d = inter(v, o, rng, f"thread {a}, operation {b} ({how[:-1]})")
                    viol = d and ["copy", d]
        if not viol:
            d = O.snap_diff(before, O.snap(e))
            viol = d and ["disturbed", f"pickling or copying changed an original: {d}"]
    return {"viol": viol, "st": st, "blobs": blobs, "sig": sim.sig, "switches": sim.switch_log}


def load(case, k, blobs):
    seams.SALT[0] = case["salt"][k]
    e = O.Env(case["texts"])
    rng = random.Random(f"{case['r']}:{k}")
    fresh = {repr(F.fp(o)): o for o in e.nodes}
    if rng.random() < 0.5:
        e.warm()
    out, n = [], 0
    for key, blob, label in blobs:
        b = fresh.get(key)
        if b is None:
            continue  # an object the text alone does not give
        n += 1
        where = f"{label}, loaded in process {k}"
        try:
            a = unwrap(pickle.loads(blob))
        except Exception as x:
            return {"viol": ["load", f"{where}: {type(x).__name__}: {x}"], "blobs": [], "n": n}
        for _ in range(rng.randrange(3)):  # some use before the comparison
            try:
                rng.choice([str, repr, hash, copy.copy, pickle.dumps])(a)
            except TypeError:
                pass
        d = inter(a, b, rng, where)
        if not d and e.set is not None and O.hashable(a) and (a not in e.set or e.dict.get(a) != e.dict.get(b)):
            d = f"{where}: not found in a set or dictionary that holds the fresh one: {str(a)[:120]}"
        if not d:
            for q in ("domain", "domain2"):
                got = [W.outcome(lambda: use(x, e.root[q], e)) for x in (a, b)]
                d = W.differ(*got)
                if d:
                    d = f"{where}: used with {q}: {d}"
                    break
        if d:
            return {"viol": ["differs", d], "blobs": [], "n": n}
        try:
            out.append((key, pickle.dumps(wrap(a, rng.choice(WRAP)), rng.randrange(6)), label + f", again from process {k}"))
        except Exception as x:
            return {"viol": ["load", f"{where}: pickling it again: {type(x).__name__}: {x}"], "blobs": [], "n": n}
    return {"viol": None, "blobs": out, "n": n}


def use(x, d, e):
    n = type(x).__name__
    if n == "Domain":
        return [W.outcome(lambda: e.root["problem"].check(x)), W.outcome(lambda: e.root["plan"].instantiate(x)), x == d]
    if n == "Problem":
        return [W.outcome(lambda: x.check(d)), W.outcome(lambda: e.root["plan"].check(d, x)), W.outcome(lambda: x.domain)]
    if n == "Plan":
        return [W.outcome(lambda: x.check(d, e.root["problem"])), W.outcome(lambda: x.instantiate(d))]
    if n == "Action":
        return [x in d.actions, W.outcome(lambda: x.instantiate(e.consts[:len(x.parameters)]))]
    return [x in c for c in (d.predicates, d.constants, d.derived_predicates, d.functions, e.root["problem"].objects, e.root["problem"].init)] \
        if O.hashable(x) else None


def run(case, pool):
    out = pool.call(case["hs"][0], __name__, "make", case, wall=90)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    m = out[1]
    if m is None:
        return {"viol": None, "stats": {"unusable": 1}, "digest": "unusable", "nontrivial": False}
    viol, blobs, st = m["viol"], m["blobs"], m["st"]
    log = [["made", len(blobs)]]
    for k in range(1, 3 if case["chain"] else 2):
        if viol or not blobs:
            break
        out = pool.call(case["hs"][k], __name__, "load", case, k, blobs, wall=90)
        if out[0] != "ok":
            viol = ["crash", f"loading ended with {out}"]
            break
        viol, blobs = out[1]["viol"], out[1]["blobs"]
        st["loaded"] = st.get("loaded", 0) + out[1]["n"]
        st["fault:restart_with_other_hash_seed"] = st.get("fault:restart_with_other_hash_seed", 0) + 1
        log.append([k, out[1]["n"]])
    return {"viol": viol, "stats": st, "log": log, "sig": runner.digest([m["sig"], case["hs"], case["threads"]]),
            "switches": m["switches"], "digest": runner.digest([log, viol, m["sig"]]), "nontrivial": log[0][1] > 0 or bool(viol)}


def shrink(case):
    def cands():
        th = case["threads"]
        if len(th) > 1:
            for a in range(len(th)):
                yield dict(case, threads=th[:a] + th[a + 1:])
        for a, ops in enumerate(th):
            if len(ops) > 1:
                for o in W.without(ops):
                    if o:
                        yield dict(case, threads=th[:a] + [o] + th[a + 1:])
        if case["warm"]:
            yield dict(case, warm=False)
        if case["chain"]:
            yield dict(case, chain=False)
        if case["gran"] != "line":
            yield dict(case, gran="line")
    for c in cands():
        yield from W.schedules(c)
