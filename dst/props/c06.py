"""C06: torn and damaged files."""
import re

from .. import fp as F
from .. import gen as G
from .. import kernel, runner, seams, simio
from ..work import *  # noqa
from .. import work as W

HS = 1
RUNS = {"quick": (850, 150), "thorough": (20000, 3000)}
RULE = ("one case = one text (written by hand or as the library formats it) and an older version of it, and 20 outcomes of a crash while "
        "the file was being written over the old one: cuts (at every kind of place), stale tails, and page-wise mixtures of new, old, zero, "
        "lost and doubled pages; read back with the file helper (short reads) or the parser. An independent scanner decides whether one "
        "complete definition is left. Non-trivial: at least one damaged version differs from the text in its tokens")
MEASURE = "distinct damaged texts"
REAL = W.REAL
STUB = ["the crash: the file's content after it is computed by the simulator's page model", "raw disk reads", "hash() salted (seam)"]
PER = 20


def gen(rng, i, tier, hs):
    kind = rng.choice(["domain", "domain", "problem", "problem", "plan"])
    if kind == "plan":
        texts = [W.gen_text(rng, kind), W.gen_text(rng, kind)]
    else:
        dm = G.gen_domain(rng, size=1)
        m = dm if kind == "domain" else G.gen_problem(rng, dm)
        m2 = G.gen_domain(rng, size=1) if kind == "domain" else G.gen_problem(rng, dm)
        texts = [G.render(m, G.Style(rng)), G.render(G.permute(m, rng) if rng.random() < 0.5 else m2, G.Style(rng))]
        if rng.random() < 0.5:
            texts[1] = rng.choice([W.thin_section, W.drop_section, W.rename_tokens])(rng, texts[0])
    dmg = [rng.randrange(1 << 30) for _ in range(PER)]
    return {"hs": rng.choice(hs), "salt": rng.randrange(1 << 30), "kind": kind, "new": texts[0], "old": texts[1],
            "formatted": rng.random() < 0.4, "dmg": dmg}


def damage(new, old, seed):
    """Content of the file after the crash (bytes), and what kind of damage it is."""
    import random
    r = random.Random(seed)
    n = len(new)
    k = r.choice(["cut", "cut", "cut", "stale", "stale", "zero", "drop", "dup", "pages", "block"])
    at = r.randrange(n + 1)
    if r.random() < 0.35 and n:  # near a bracket, where structure changes
        ps = [j for j, c in enumerate(new) if c in b"()"] or [0]
        at = min(n, max(0, r.choice(ps) + r.choice([-1, 0, 1, 1])))
    if r.random() < 0.2:
        at = max(0, n - r.randint(0, 6))
    if k == "cut":
        return new[:at], k
    if k == "stale":
        return new[:at] + old[at:], k
    if k == "block":  # the lost or doubled block happens to be a bracketed part
        ps, stack = [], []
        for j, c in enumerate(new):
            if c == 40:
                stack.append(j)
            elif c == 41 and stack:
                ps.append((len(stack), stack.pop(), j + 1))
        top = [p for p in ps if p[0] == 2]
        ps = top if top and r.random() < 0.7 else ps
        if not ps:
            return new[:at], "cut"
        _, a, b = r.choice(ps)
        if r.random() < 0.5:
            _, to, _ = r.choice(ps)
            if r.random() < 0.6:
                to = b
            return new[:to] + new[a:b] + new[to:], k
        fill = r.choice([b"", b"", b" ", b"\0" * (b - a)])
        return new[:a] + fill + new[b:], k
    size = r.choice([1, 4, 16, 64, 256])
    if k in ("zero", "drop", "dup"):
        a = at // size * size if r.random() < 0.5 else at
        b = min(n, a + size)
        if k == "zero":
            return new[:a] + b"\0" * (b - a) + new[b:], k
        if k == "drop":
            return new[:a] + new[b:], k
        return new[:b] + new[a:b] + new[b:], k
    out = b""
    for a in range(0, max(n, len(old)), size):
        x = r.random()
        pn, po = new[a:a + size], old[a:a + size]
        out += pn if x < 0.7 else po if x < 0.85 else b"\0" * len(pn) if x < 0.9 else b"" if x < 0.95 else pn + pn
    return out, k


KW = sorted([":requirements", ":types", ":constants", ":predicates", ":functions", ":action", ":parameters", ":precondition", ":effect",
             ":derived", ":domain", ":objects", ":init", ":goal", ":metric", ":strips", ":typing", ":equality", ":adl",
             ":non-deterministic", ":negative-preconditions", ":disjunctive-preconditions", ":derived-predicates", ":conditional-effects",
             ":existential-preconditions", ":universal-preconditions", ":quantified-preconditions", ":numeric-fluents", ":fluents",
             ":action-costs"], key=len, reverse=True)
LEX = re.compile("|".join(map(re.escape, KW)) + r"|\?|[a-zA-Z][a-zA-Z0-9_-]*|[0-9]+(?:\.[0-9]+)*|>=|<=|.", re.S)


def tree(text, kind):
    """Nested lists; None if brackets do not match.  Like the grammar, does not insist on white space between items."""
    stack, cur = [], []
    for t, _, _ in G.scan(text):
        if t == "(":
            stack.append(cur)
            cur = []
        elif t == ")":
            if not stack:
                return None
            x = cur
            cur = stack.pop()
            if cur and cur[-1] == "-" and x and isinstance(x[0], str):
                unglue(x, 0, "either")
            cur.append(x)
        else:
            for u in LEX.findall(t):
                if cur and cur[-1] == "?" and u != "?":
                    cur[-1] = "?" + u
                else:
                    cur.append(u)
    if stack:
        return None
    if len(cur) == 1 and isinstance(cur[0], list):
        unglue(cur[0], 0, "define")
        for s in cur[0][1:]:
            if isinstance(s, list):
                unglue(s, 0, kind)
                if len(s) > 1 and s[0] == ":metric":
                    unglue(s, 1, "minimize")
                    unglue(s, 1, "maximize")
    return cur


def unglue(x, i, kw):
    if len(x) > i and isinstance(x[i], str) and x[i].startswith(kw) and x[i] != kw:
        x[i:i + 1] = [kw] + LEX.findall(x[i][len(kw):])


NAME = re.compile(r"[a-zA-Z][a-zA-Z0-9_-]*\Z")
ONCE = {"domain": {":requirements", ":types", ":constants", ":predicates", ":functions"},
        "problem": {":requirements", ":objects", ":init", ":goal", ":metric", ":domain"}}


def complete(kind, sx):
    """Why this is not one complete definition; None if it may be one."""
    if sx is None:
        return "brackets do not match"
    if len(sx) != 1 or not isinstance(sx[0], list):
        return f"{len(sx)} items at the top instead of one definition"
    d = sx[0]
    if len(d) < 2 or d[0] != "define" or not isinstance(d[1], list) or len(d[1]) != 2 or d[1][0] != kind:
        return "no (define (%s name) ...)" % kind
    seen = set()
    for s in d[2:]:
        if not isinstance(s, list) or not s or not isinstance(s[0], str):
            return "something that is not a section"
        h = s[0]
        if h in ONCE[kind]:
            if h in seen:
                return f"two {h} sections"
            seen.add(h)
        elif kind == "problem" or h not in (":action", ":derived"):
            return f"unknown section {h}"
        if h == ":action":
            if len(s) < 4 or not isinstance(s[1], str) or s[2] != ":parameters" or not isinstance(s[3], list):
                return "incomplete action"
            keys = s[4::2]
            if len(s) % 2 or len(set(map(str, keys))) != len(keys) or any(k not in (":precondition", ":effect") for k in keys):
                return "incomplete action"
        if h == ":derived" and (len(s) != 3 or not all(isinstance(x, list) for x in s[1:])):
            return "incomplete derived predicate"
        if h == ":goal" and len(s) != 2:
            return "incomplete goal"
    if kind == "problem":
        for h in (":domain", ":init", ":goal"):
            if h not in seen:
                return f"no {h}"
    return None


def words_of_text(sx):
    out = set()

    def walk(x):
        for y in x:
            if isinstance(y, list):
                walk(y)
            else:
                y = y.lstrip("?")
                if NAME.match(y) and y.lower() not in G.KEYWORDS:
                    out.add(y)
    walk(sx)
    return out


def words_of_fp(f):
    out = set()

    def walk(x, head=True):
        if isinstance(x, str):
            if NAME.match(x):
                out.add(x)
        elif isinstance(x, list):
            for i, y in enumerate(x):
                walk(y)
    walk(f)
    return out


CLASSES = {"Domain", "Problem", "Plan", "Action", "Predicate", "DerivedPredicate", "NumericFunction", "NumericValue", "Metric", "When",
           "Forall", "ForallCondition", "ExistsCondition", "Not", "And", "Or", "OneOf", "Imply", "LesserThan", "LesserEqualThan",
           "GreaterThan", "GreaterEqualThan", "Assign", "ScaleUp", "ScaleDown", "Increase", "Decrease", "Minus", "Plus", "Times",
           "Divide", "Variable", "Constant", "EqualTo", "NumEqualTo", "seq", "set", "map"}


def plan_steps(text):
    """The complete steps of a plan text, in order; and whether anything else is there."""
    steps, cur, odd = [], None, False
    for t, _, _ in G.scan(text):
        if t == "(":
            if cur is not None:
                odd = True
                break  # a bracket inside a step
            cur = []
        elif t == ")":
            if cur is None:
                odd = True
                break
            steps.append(cur)
            cur = None
        elif cur is None:
            odd = True
            break
        else:
            cur.append(t)
    return steps, odd or cur is not None


def judge(kind, text, got, ref, toks):
    """None, or what is wrong with accepting this text."""
    now = [t for t, _, _ in G.scan(text)]
    if now == toks:
        d = W.differ(got, ref)
        return d and "trivia", d and f"only comments and white space were damaged, yet: {d}"
    if got[0] == "err":
        return None, None
    if kind == "plan":
        steps, _odd = plan_steps(text)
        have = [[s[0]] + [p[1] for p in s[1]] for s in got[1][1:]]
        if have != steps:
            return "steps", f"complete steps in the file: {steps}; plan returned: {have}"
        return None, None
    sx = tree(text, kind)
    why = complete(kind, sx)
    if why:
        return "accepted", f"accepted although {why}; returned {W.short(got[1])}"
    a, b = words_of_text(sx), words_of_fp(got[1]) - CLASSES
    b = {w for w in b if w.lower() not in G.KEYWORDS}
    if a - b:
        return "partial", f"in the file but not in the object: {sorted(a - b)}"
    if b - a - CLASSES:
        return "mixed", f"in the object but not in the file: {sorted(b - a)}"
    return None, None


def stage(case):
    seams.SALT[0] = case["salt"]
    kind = case["kind"]
    st, log, viol = {}, [], None
    sim = kernel.Sim()
    sigs = []
    helper = {"domain": "parse_domain", "problem": "parse_problem", "plan": "parse_plan"}[kind]
    import pddl
    import random
    with simio.Disk() as disk, sim:
        new, old = case["new"], case["old"]

        def parse(t, which):
            return sim.call_main(lambda: W.outcome(lambda: W.parser(kind, which)(t)), None, W.budget_for(t))
        try:
            if case["formatted"]:
                o = []
                for t in (new, old):
                    try:
                        o.append(str(sim.call_main(lambda: W.parser(kind)(t), None, W.budget_for(t))) + "\n")
                    except Exception:
                        o.append(t)
                new, old = o
            new = new.replace("\r\n", "\n")
            ref = parse(new, 0)
            toks = [t for t, _, _ in G.scan(new)]
            bn, bo = new.encode(), old.encode()
            for n, s in enumerate(case["dmg"]):
                if isinstance(s, str):  # an explicit damaged content (minimised replay)
                    data, k = s.encode("utf-8", "surrogateescape"), "given"
                else:
                    data, k = damage(bn, bo, s)
                st["fault:" + k] = st.get("fault:" + k, 0) + 1
                r = random.Random(n if isinstance(s, str) else s + 1)
                try:
                    text = data.decode()
                except UnicodeDecodeError:
                    text = None
                as_file = text is None or r.random() < 0.15
                if as_file:
                    fn = disk.put(f"{n}.pddl", data)
                    if r.random() < 0.6:
                        disk.plan(fn, simio.gen_soft(r))
                    got = sim.call_main(lambda: W.outcome(lambda: getattr(pddl, helper)(fn)), None,
                                        W.budget_for(text or new) + 2_000_000)
                    if text is not None:
                        text = text.replace("\r\n", "\n").replace("\r", "\n")
                else:
                    got = parse(text, 1)
                sigs.append(runner.digest(data.hex()))
                log.append([k, got[0]])
                if text is None:
                    if got[0] == "ok":
                        viol = ["undecodable", f"accepted bytes that are not text: {data[-80:]!r}"]
                        break
                    st["undecodable"] = st.get("undecodable", 0) + 1
                    continue
                cls, msg = judge(kind, text, got, ref, toks)
                if got[0] == "ok":
                    st["probe:accepted_complete"] = st.get("probe:accepted_complete", 0) + 1
                if msg:
                    viol = [cls, f"damage {k}: {msg}\nfile:\n{text}"]
                    bad = data.decode("utf-8", "surrogateescape")
                    break
        except (kernel.SimStop, kernel.SimDeadlock) as e:
            log.append(["stuck", str(e)])
        for k, v in disk.stats.items():
            st[k] = st.get(k, 0) + v
    st["steps"] = sim.step
    st["damaged_files"] = len(sigs)
    out = {"viol": viol, "stats": st, "log": log, "sig": runner.digest(sigs), "digest": runner.digest([log, viol, sigs, sim.sig])}
    if viol:
        out["bad"] = bad if viol[0] != "undecodable" else None
    return out


def run(case, pool):
    out = pool.call(case["hs"], __name__, "stage", case, wall=90)
    if out[0] != "ok":
        return {"viol": ["crash", f"the run ended with {out}"], "digest": str(out)}
    if out[1].get("bad"):
        case["bad"] = out[1]["bad"]
    return out[1]


def shrink(case):
    if case.get("bad") and case["dmg"] != [case["bad"]]:
        yield {**case, "dmg": [case["bad"]], "formatted": False}
        for s in case["dmg"]:
            yield {**case, "dmg": [s]}
        return
    if len(case["dmg"]) == 1 and isinstance(case["dmg"][0], str):
        t = case["dmg"][0]
        n = len(t)
        k = n // 2
        while k:
            for a in range(0, n, k):
                yield {**case, "dmg": [t[:a] + t[a + k:]]}
            k //= 2
