"""Workload helpers shared by the properties; everything here runs in a forked child of a zygote."""
import sys

from . import fp as F
from . import gen, kernel, seams
from .zygote import ENV, in_child

# generous: calls of the library measured on the unchanged tree stay two orders of magnitude below
def budget_for(text):
    n = len(gen.scan(text)) + 5
    return 200_000 + 4_000 * n + 60 * n * n


def new_parser(kind):
    from pddl.parser.domain import DomainParser
    from pddl.parser.plan import PlanParser
    from pddl.parser.problem import ProblemParser
    return {"domain": DomainParser, "problem": ProblemParser, "plan": PlanParser}[kind]()


def parser(kind, which=0):
    return ENV["parsers"][kind][which]


def err(e):
    return ["err", type(e).__name__]


def outcome(fn):
    """["ok", fingerprint] or ["err", class]; never lets the library's exceptions out."""
    try:
        v = fn()
    except (kernel.SimStop, kernel.SimDeadlock):
        raise
    except BaseException as e:
        return err(e)
    try:
        return ["ok", kernel.unharmed(F.fp, v)]
    except Exception as e:  # a result that cannot be looked at
        return ["ok", ["unreadable", type(v).__name__, type(e).__name__]]


def fresh(text):
    """An equal string of its own, which lives no longer than the call it is given to: its address is used again."""
    return (text + " ")[:-1]


SCALE = {"line": 1, "instr": 12, "lark": 12}  # steps per library line, roughly


def _alone(kind, text, salt, gran):
    seams.SALT[0] = salt
    sim = kernel.Sim(budget=budget_for(text) * SCALE[gran], gran=gran)
    with sim:
        try:
            return sim.call_main(lambda: outcome(lambda: parser(kind)(text))), sim.step
        except (kernel.SimStop, kernel.SimDeadlock) as e:
            return ["stuck", str(e)], sim.step


def alone(kind, text, salt, wall=40.0, gran="line"):
    """What a brand-new parser in a pristine process does with the text."""
    st, v = in_child(_alone, kind, text, salt, gran, wall=wall)
    if st == "ok":
        return v
    if st == "harness":
        raise RuntimeError(v)
    return ["stuck", st], 0


class Refs:
    """Reference outcomes: the same text alone, on a brand-new parser in a pristine process."""

    def __init__(self, salt, gran="line"):
        self.salt, self.gran, self.d, self.steps = salt, gran, {}, {}

    def __call__(self, kind, text):
        k = (kind, text)
        if k not in self.d:
            self.d[k], self.steps[k] = alone(kind, text, self.salt, gran=self.gran)
        return self.d[k]


# ------------------------------------------------------------- schedules

def gen_policy(rng):
    """Random preemption with some probability at every step, or a few preemptions anywhere (PCT)."""
    r = rng.random()
    if r < 0.35:
        return {"k": rng.choice([1, 1, 2, 2, 3, 4, 6])}
    return {"p": rng.choice([0.5, 0.3, 0.1, 0.1, 0.03, 0.01])}


def sim_for(case, total, budget):
    """The simulator of a run; total: steps expected, where a few preemptions are to be spread."""
    pol = case["policy"]
    if "k" in pol:
        import random
        r = random.Random(f"pct:{case['sseed']}")
        pol = {"pct": [r.randint(1, max(2, int(total * 1.05))) for _ in range(pol["k"])]}
    return kernel.Sim(case["sseed"], pol, case["gran"], budget)


def schedules(case):
    """The same case under other schedules, for shrinking."""
    yield case
    if "switches" not in case["policy"]:
        for s in range(1, 5):
            yield dict(case, sseed=case["sseed"] + s, policy={"p": [0.3, 0.1, 0.5, 0.03][s - 1]})


def sched_stats(sim, st):
    st["steps"] = st.get("steps", 0) + sim.step
    st["switches"] = st.get("switches", 0) + len(sim.switch_log)
    st["fault:preemption"] = st.get("fault:preemption", 0) + len(sim.switch_log)
    st["lock_waits"] = st.get("lock_waits", 0) + sim.blocked_waits
    for k, v in sim.fault_log.items():
        st["fault:" + k] = st.get("fault:" + k, 0) + v


def short(o):
    s = str(o)
    return s if len(s) < 300 else s[:300] + "..."


def differ(got, ref):
    """None if the outcomes agree, else a message."""
    if got[0] != ref[0]:
        return f"got {short(got)}, alone it gives {short(ref)}"
    if got[0] == "ok":
        return F.diff(got[1], ref[1])
    if got[1] != ref[1]:
        return f"got error {got[1]}, alone it gives {ref[1]}"
    return None


# ------------------------------------------------------------- related texts

SECTIONS = [":requirements", ":types", ":constants", ":predicates", ":functions", ":objects", ":init", ":metric"]


def drop_section(rng, text):
    sx = gen.sexprs(text)
    if not sx or not isinstance(sx[0], list):
        return gen.break_text(rng, text)
    d = sx[0]
    c = [i for i, x in enumerate(d) if isinstance(x, list) and x and x[0] in SECTIONS and x[0] != ":init"]
    if not c:
        return gen.break_text(rng, text)
    i = rng.choice(c)
    return gen.unparse(d[:i] + d[i + 1:])


def thin_section(rng, text):
    """Drop one entry of a declaration section, or strip the types of one typed list."""
    sx = gen.sexprs(text)
    if not sx or not isinstance(sx[0], list):
        return gen.break_text(rng, text)
    d = sx[0]
    c = [x for x in d if isinstance(x, list) and len(x) > 2 and x[0] in SECTIONS]
    if not c:
        return gen.break_text(rng, text)
    x = rng.choice(c)
    if "-" in x and rng.random() < 0.5:
        i = x.index("-")
        del x[i:i + 2]
    else:
        del x[rng.randrange(1, len(x))]
    return gen.unparse(d)


def rename_tokens(rng, text):
    """Same shape, one declared name spelt differently everywhere or in one place."""
    toks = [t for t, _, _ in gen.scan(text) if t[0].isalpha() and t.lower() not in gen.KEYWORDS]
    if not toks:
        return text
    t = rng.choice(toks)
    new = t + "-z"
    out, last = [], 0
    places = [(a, b) for u, a, b in gen.scan(text) if u in (t, "?" + t)]
    if rng.random() < 0.5:
        places = [rng.choice(places)]
    for a, b in places:
        out.append(text[last:a])
        out.append(("?" if text[a] == "?" else "") + new)
        last = b
    return "".join(out) + text[last:]


def other_requirements(rng, text):
    """The same body under other requirements: one fewer, one more, or a general one instead of several."""
    sx = gen.sexprs(text)
    if not sx or not isinstance(sx[0], list):
        return gen.break_text(rng, text)
    d = sx[0]
    k = [i for i, x in enumerate(d) if isinstance(x, list) and x and x[0] == ":requirements"]
    reqs = d[k[0]][1:] if k else []
    r = rng.random()
    if reqs and r < 0.45:
        reqs.remove(rng.choice(reqs))
    elif r < 0.65:
        reqs.insert(rng.randint(0, len(reqs)), rng.choice(gen.ALL_REQS))
    else:
        reqs = [rng.choice([":adl", ":adl", ":quantified-preconditions", ":fluents"])] + [x for x in reqs if rng.random() < 0.5]
    new = [[":requirements"] + reqs] if reqs else []
    return gen.unparse(d[:k[0]] + new + d[k[0] + 1:] if k else d[:2] + new + d[2:])


def other_types(rng, text):
    """Types of variables or names changed or removed in a few places."""
    sx = gen.sexprs(text)
    if not sx or not isinstance(sx[0], list):
        return gen.break_text(rng, text)
    places, seen = [], []

    def walk(x):
        for i, y in enumerate(x):
            if y == "-" and i and i + 1 < len(x):
                places.append((x, i))
                seen.append(x[i + 1])
            elif isinstance(y, list):
                walk(y)
    walk(sx[0])
    derived = [p for p in places if any(isinstance(y, list) and y[0] == ":derived" and y[1] is p[0] for y in sx[0] if y)]
    if not places:
        return gen.break_text(rng, text)
    for x, i in rng.sample(places, min(len(places), rng.choice([1, 1, 2]))) + derived * (rng.random() < 0.5):
        if x[i:i + 1] != ["-"] or i + 1 >= len(x):
            continue
        if rng.random() < 0.5:
            del x[i:i + 2]
        else:
            x[i + 1] = rng.choice(seen)
    return gen.unparse(sx[0])


def other_declaration(rng, text):
    """One declaration section says something else about the same names: other parents, other types, other arguments."""
    sx = gen.sexprs(text)
    if not sx or not isinstance(sx[0], list):
        return gen.break_text(rng, text)
    d = sx[0]
    c = [x for x in d if isinstance(x, list) and len(x) > 1 and x[0] in SECTIONS and x[0] not in (":requirements", ":init", ":metric")]
    if not c:
        return gen.break_text(rng, text)
    heads = [x for x in c if x[0] == ":types"]
    x = rng.choice(heads) if heads and rng.random() < 0.5 else rng.choice(c)
    words = [y for h in heads for y in h[1:] if isinstance(y, str) and y != "-"] + ["object"]
    for _ in range(rng.choice([1, 1, 2])):
        lists = [x] + [y for y in x if isinstance(y, list) and y and y[0] != "either"]
        z = rng.choice(lists if x[0] in (":predicates", ":functions") else lists[:1])
        tags = [i for i, y in enumerate(z) if y == "-" and i + 1 < len(z)]
        r = rng.random()
        if tags and r < 0.55:
            z[rng.choice(tags) + 1] = rng.choice(words)
        elif tags and r < 0.7:
            i = rng.choice(tags)
            del z[i:i + 2]
        elif r < 0.85:
            z.append("?extra" if z is not x else ["extra"] if x[0] in (":predicates", ":functions") else "extra")
        elif len(z) > 1:
            del z[-1]
    return gen.unparse(d)


def recase(rng, text):
    """Letters of one name, one place or everything in another case."""
    r = rng.random()
    if r < 0.3:
        return rng.choice([text.lower(), text.upper(), text.swapcase()])
    places = [(a, b) for u, a, b in gen.scan(text) if u[-1].isalpha() or u[0].isalpha()]
    if not places:
        return text
    a, b = rng.choice(places)
    if r < 0.6:
        return text[:a] + text[a:b].swapcase() + text[b:]
    return text.replace(text[a:b], text[a:b].swapcase())


def comment_out(rng, text):
    """A comment sign somewhere: what follows on the line is gone."""
    ends = [b for u, a, b in gen.scan(text)]
    if not ends:
        return text + ";"
    b = rng.choice(ends)
    return text[:b] + rng.choice([" ; ", ";", "\n;"]) + text[b:]


def bare_types(rng, text):
    """All types taken off the variables (not off the declarations)."""
    sx = gen.sexprs(text)
    if not sx or not isinstance(sx[0], list):
        return gen.break_text(rng, text)

    def walk(x):
        i = 0
        while i < len(x):
            if x[i] == "-" and i and isinstance(x[i - 1], str) and x[i - 1].startswith("?"):
                del x[i:i + 2]
                continue
            if isinstance(x[i], list):
                walk(x[i])
            i += 1
    walk(sx[0])
    return gen.unparse(sx[0])


def variants(rng, text, n):
    """Texts related to the given one: some valid, some not; chosen so that leftovers of one matter to another."""
    out = [text]
    for _ in range(n):
        f = rng.choice([drop_section, drop_section, thin_section, rename_tokens, gen.break_text, gen.break_text,
                        other_requirements, other_requirements, other_types, other_types, bare_types,
                        other_declaration, other_declaration, other_declaration, recase, comment_out])
        out.append(f(rng, rng.choice(out[:3])))
    return out


def gen_text(rng, kind, small=True):
    dm = gen.gen_domain(rng, size=rng.choice([1, 1, 2]) if small else None)
    if kind == "domain":
        return gen.render(dm, gen.Style(rng))
    pm = gen.gen_problem(rng, dm)
    if kind == "problem":
        return gen.render(pm, gen.Style(rng))
    return gen.render(gen.gen_plan(rng, dm, pm), gen.Style(rng))


def gen_fault(rng, text, where="parse"):
    n = max(4, len(gen.scan(text)) * 2)
    at = rng.randint(1, n) if rng.random() < 0.6 else int(n ** rng.random()) + 1
    return {"kind": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RecursionError"]),
            "at": at, "where": where}


# ------------------------------------------------------------- shrinking of texts

def shrink_text(text):
    """Smaller texts with balanced brackets: drop sub-expressions, largest first; then drop the layout."""
    sx = gen.sexprs(text)
    if sx is None:
        n = len(text)
        for k in (n // 2, n // 4, n // 8, 8, 1):
            if k:
                for a in range(0, n, k):
                    yield text[:a] + text[a + k:]
        return
    flat = "\n".join(gen.unparse(x) for x in sx)
    if len(flat) < len(text):
        yield flat
    paths = []

    def walk(x, path):
        for i, y in enumerate(x):
            paths.append((len(gen.unparse(y)), path + [i]))
            if isinstance(y, list):
                walk(y, path + [i])
    walk(sx, [])
    paths.sort(key=lambda p: (-p[0], p[1]))
    import copy
    for _, p in paths[:400]:
        c = copy.deepcopy(sx)
        x = c
        for i in p[:-1]:
            x = x[i]
        del x[p[-1]]
        t = "\n".join(gen.unparse(y) for y in c)
        if len(t) < len(text):
            yield t
        sub = None
        y = sx
        for i in p:
            y = y[i]
        if isinstance(y, list) and len(p) > 2 and len(y) > 1:
            for z in y[1:]:
                if isinstance(z, list):
                    c = copy.deepcopy(sx)
                    x = c
                    for i in p[:-1]:
                        x = x[i]
                    x[p[-1]] = z
                    yield "\n".join(gen.unparse(w) for w in c)


def without(lst):
    """Lists with chunks, then single items, removed."""
    n = len(lst)
    k = n // 2
    while k >= 1:
        for a in range(0, n, k):
            yield lst[:a] + lst[a + k:]
        k //= 2


REAL = ["all of pddl (parsers, transformers, model, formatter, validation, CLI)", "lark 1.1.9", "CPython 3.12 threads, "
        "bytecode, sets, pickle, io buffering and text layers"]
