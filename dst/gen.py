"""Seeded generator of PDDL texts (workload only; nothing of the library is used here).

A "model" is plain JSON data; render_*() turns it into text.  Everything is drawn from the random.Random passed in.
"""

KEYWORDS = {
    "and", "define", "domain", "either", "exists", "forall", "imply", "not", "object", "oneof", "or", "problem",
    "when", "assign", "scale-up", "scale-down", "increase", "decrease", "maximize", "minimize", "total-cost", "number",
}
STEMS = ["a", "b1", "at", "on", "loc", "Truck", "x-y", "in_z", "and-1", "or2", "notx", "objects", "when_q", "Zed-9_k",
         "define1", "domains", "f", "k", "either-a", "q"]


class Names:
    def __init__(self, rng):
        self.rng, self.used = rng, set(KEYWORDS)
        self.twins, self.given = rng.random() < 0.15, []  # names that differ in letter case only

    def new(self, prefix=""):
        if self.twins and self.given and self.rng.random() < 0.4:
            n = self.rng.choice(self.given)
            n = self.rng.choice([n.swapcase(), n.upper(), n.lower(), n.capitalize()])
            if n not in self.given:
                self.given.append(n)
                return n
        while True:
            n = prefix + self.rng.choice(STEMS)
            if self.rng.random() < 0.5:
                n += str(self.rng.randrange(30 if len(self.used) < 150 else 5000))
            if n.lower() not in self.used:
                self.used.add(n.lower())
                self.given.append(n)
                return n


ALL_FEATS = ["typing", "hier", "either", "constants", "functions", "typed_funcs", "total_cost", "derived", "quant",
             "disj", "cond_eff", "forall_eff", "oneof", "equality", "num_cond", "arith", "empty_pre", "untyped_mix",
             "decimals"]


ALL_REQS = [":strips", ":typing", ":equality", ":non-deterministic", ":negative-preconditions", ":disjunctive-preconditions",
            ":existential-preconditions", ":universal-preconditions", ":quantified-preconditions", ":adl",
            ":derived-predicates", ":conditional-effects", ":numeric-fluents", ":fluents", ":action-costs"]


def feats(rng, p=0.55, must=()):
    f = {k: rng.random() < p for k in ALL_FEATS}
    for m in must:
        f[m] = True
    if f["hier"] or f["either"]:
        f["typing"] = True
    if f["typed_funcs"] or f["num_cond"] or f["arith"] or f["decimals"]:
        f["functions"] = True
    return f


def gen_domain(rng, f=None, size=None):
    f = f or feats(rng)
    free = size is None
    size = size or (rng.choice([1, 1, 2, 2, 3, 4]) if rng.random() < 0.985 else rng.choice([10, 20, 60]))
    nm = Names(rng)
    m = {"kind": "domain", "name": nm.new("d"), "feats": f, "bulk": size >= 10 or free and rng.random() < 0.01}
    same = rng.random() < 0.2  # the same words for types, constants, predicates, functions and actions

    def cat(prefix):
        if not same:
            return lambda: nm.new(prefix)
        n = Names(rng)
        return lambda: n.new()
    new_t, new_c, new_p, new_f, new_a = map(cat, "tcpfa")
    quirk = {k: rng.random() < 0.25 for k in ("bare", "shadow", "dup", "one", "mixnum", "overload", "heads")}
    m["quirk"] = quirk
    reqs = []
    if rng.random() < 0.7:
        reqs.append(":strips")
    if f["typing"]:
        reqs.append(":typing")
    rest = [":negative-preconditions"]
    if f["disj"]:
        rest.append(":disjunctive-preconditions")
    if f["quant"]:
        rest += rng.choice([[":quantified-preconditions"],
                            [":universal-preconditions", ":existential-preconditions"]])
    if f["equality"]:
        rest.append(":equality")
    if f["cond_eff"] or f["forall_eff"]:
        rest.append(":conditional-effects")
    if rng.random() < 0.25:
        reqs.append(":adl")
        rest = [r for r in rest if rng.random() < 0.3]
    reqs += rest
    if f["functions"]:
        reqs.append(rng.choice([":numeric-fluents", ":fluents", ":numeric-fluents"]))
    if f["total_cost"]:
        reqs.append(":action-costs")
    if f["derived"]:
        reqs.append(":derived-predicates")
    if f["oneof"]:
        reqs.append(":non-deterministic")
    if rng.random() < 0.25:  # more than needed, also what others imply
        reqs += [r for r in rng.sample(ALL_REQS, rng.randint(1, 4)) if r not in reqs]
    rng.shuffle(reqs)
    m["reqs"] = reqs

    types = []
    if f["typing"] or rng.random() < 0.1:
        for _ in range(rng.randint(1, 2 + 2 * size)):
            parent = None
            if types and f["hier"] and rng.random() < 0.65:
                parent = rng.choice(types)[0]
            types.append([new_t(), parent])
    m["types"] = types
    tn = [t for t, _ in types] if f["typing"] else []

    def a_type():
        if not tn or (f["untyped_mix"] and rng.random() < 0.25):
            return None
        return rng.choice(tn)

    def a_types():
        if not tn or (f["untyped_mix"] and rng.random() < 0.25):
            return []
        if f["either"] and len(tn) > 1 and rng.random() < 0.4:
            return rng.sample(tn, rng.randint(1 if quirk["one"] else 2, min(4, len(tn))))
        return [rng.choice(tn)]

    m["constants"] = [[new_c(), a_type()] for _ in range(rng.randint(1, 2 + size))] if f["constants"] else []
    cn = [c for c, _ in m["constants"]]

    def params(lo, hi):
        n = Names(rng)
        vs = [["?" + n.new(), a_types()] for _ in range(rng.randint(lo, hi))]
        vs.sort(key=lambda v: len(v[1]) == 0)  # untyped last: the only place the grammar has for them
        return vs

    m["preds"] = [[new_p(), params(0, 3)] for _ in range(rng.randint(1, 2 + size))]
    m["funcs"] = []
    if f["functions"]:
        m["funcs"] += [[new_f(), params(0, 2)] for _ in range(rng.randint(1, 1 + size))]
    if quirk["overload"] and rng.random() < 0.6:  # one name with several argument lists
        for xs in (m["preds"], m["funcs"]):
            for x in xs[1:]:
                if rng.random() < 0.6 and all(y[0] != xs[0][0] or len(y[1]) != len(x[1]) for y in xs):
                    x[0] = xs[0][0]
    if f["total_cost"]:
        m["funcs"].append(["total-cost", []])
    rng.shuffle(m["funcs"])
    if quirk["mixnum"] and len(m["funcs"]) > 1:
        m["numbered"] = [f for f, _ in m["funcs"][:rng.randint(1, len(m["funcs"]) - 1)]]
    m["func_number"] = bool(f["typed_funcs"] or (f["total_cost"] and rng.random() < 0.5))
    real_funcs = [x for x in m["funcs"] if x[0] != "total-cost"]

    def term(vs):
        if cn and (not vs or rng.random() < 0.3):
            return rng.choice(cn)
        if vs:
            return rng.choice(vs)
        return None

    def atom(vs):
        for _ in range(5):
            name, ps = rng.choice(m["preds"])
            ts = [term(vs) for _ in ps]
            if None not in ts:
                return [name] + ts
        z = [p for p in m["preds"] if not p[1]]
        return [z[0][0]] if z else [m["preds"][0][0]]

    def number():
        if f["decimals"] and rng.random() < 0.5:
            return rng.choice(["0.5", "12.25", "0.00001", "3.0", "100000000000000000000.0", "0.1", "2.50",
                               "0.000000123"])
        return str(rng.choice([0, 1, 2, 7, 10, 100, 12345678901234567890]))

    def fterm(vs, bare=True):
        fs = m["funcs"] if rng.random() < 0.2 else (real_funcs or m["funcs"])
        for _ in range(5):
            name, ps = rng.choice(fs)
            ts = [term(vs) for _ in ps]
            if None not in ts:
                return name if not ts and quirk["bare"] and bare and rng.random() < 0.5 else [name] + ts
        return None

    def fexp(vs, d=2, bare=True):
        r = rng.random()
        if f["arith"] and d and r < 0.5:
            op = rng.choice(["+", "*", "/", "-u", "+n", "*n"])
            if op == "-u":
                return ["-", fexp(vs, d - 1)]
            if op.endswith("n"):
                return [op[0]] + [fexp(vs, d - 1) for _ in range(3)]
            return [op, fexp(vs, d - 1), fexp(vs, d - 1)]
        if r < 0.75 and m["funcs"]:
            t = fterm(vs, bare)
            if t:
                return t
        return number()

    def cond(vs, d):
        opts = ["atom", "atom"]
        if d > 0:
            opts += ["not", "and", "and"]
            if f["disj"]:
                opts += ["or", "imply"]
            if f["quant"]:
                opts += ["forall", "exists"]
        if f["equality"]:
            opts += ["="]
        if f["num_cond"] and m["funcs"]:
            opts += ["cmp"]
        o = rng.choice(opts)
        if o == "not":
            return ["not", cond(vs, d - 1)]
        if o in ("and", "or"):
            ops = [cond(vs, d - 1) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
            if quirk["dup"] and ops:
                ops.append(rng.choice(ops))
            return [o] + ops
        if o == "imply":
            return ["imply", cond(vs, d - 1), cond(vs, d - 1)]
        if o in ("forall", "exists"):
            q = params(1, 3)
            if quirk["shadow"] and vs and rng.random() < 0.5:
                q[0][0] = rng.choice(vs)
                q = [v for k, v in enumerate(q) if v[0] not in [w[0] for w in q[:k]]]
            else:
                q = [v for v in q if v[0] not in vs]
            if not q:
                return atom(vs)
            return [o, ["@vars", q], cond(vs + [v[0] for v in q], d - 1)]
        if o == "=":
            a, b = term(vs), term(vs)
            if a and b:
                return ["=", a, b]
            return atom(vs)
        if o == "cmp":
            op = rng.choice(["<", "<=", ">", ">=", "="])
            a = fexp(vs, 1, op != "=")
            b = fexp(vs, 1, op != "=")
            if op == "=" and isinstance(a, str):  # (= 1 ...) : keep a function first
                a = fterm(vs, False) or a
            return [op, a, b]
        return atom(vs)

    def num_eff(vs):
        t = fterm(vs)
        if t is None:
            return atom(vs)
        return [rng.choice(["assign", "increase", "decrease", "scale-up", "scale-down"]), t, fexp(vs)]

    def p_eff(vs):
        r = rng.random()
        if m["funcs"] and r < 0.3:
            return num_eff(vs)
        return ["not", atom(vs)] if r < 0.55 else atom(vs)

    def c_eff(vs, d):
        opts = ["p", "p", "p"]
        if d:
            if f["cond_eff"]:
                opts += ["when"]
            if f["forall_eff"]:
                opts += ["forall"]
            if f["oneof"]:
                opts += ["oneof"]
        o = rng.choice(opts)
        if o == "when":
            e = p_eff(vs) if rng.random() < 0.5 else ["and"] + [p_eff(vs) for _ in range(rng.randint(0, 3))]
            return ["when", cond(vs, 1), e]
        if o == "forall":
            q = [v for v in params(1, 3) if v[0] not in vs]
            if not q:
                return p_eff(vs)
            return ["forall", ["@vars", q], eff(vs + [v[0] for v in q], d - 1)]
        if o == "oneof":
            return ["oneof"] + [eff(vs, d - 1) for _ in range(rng.randint(1, 3))]
        return p_eff(vs)

    def eff(vs, d):
        if rng.random() < 0.6:
            return ["and"] + [c_eff(vs, d) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
        return c_eff(vs, d)

    m["actions"] = []
    for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 1 + size)):
        ps = params(0, 3)
        vs = [v for v, _ in ps]
        pre = [] if f["empty_pre"] and rng.random() < 0.3 else cond(vs, 2)
        ef = [] if f["empty_pre"] and rng.random() < 0.15 else eff(vs, 2)
        m["actions"].append([new_a(), ps, pre, ef])
    m["derived"] = []
    if f["derived"]:
        anc = {}
        for t, p in types:
            anc[t] = [t] + anc.get(p, [])
        heads = [x for x in m["preds"] if sum(y[0] == x[0] for y in m["preds"]) == 1]
        if quirk["heads"] and heads:  # several with one head
            heads = [rng.choice(heads)]
        for _ in range(rng.randint(1, 2) + quirk["heads"] if heads else 0):
            name, ps = rng.choice(heads)
            # either leave the arguments untyped or give each a subtype of what the predicate says
            dps = []
            for v, ts in ps:
                if ts and rng.random() < 0.6:
                    subs = [t for t in anc if any(x in anc[t] for x in ts)]
                    dps.append([v, [rng.choice(subs)]])
                else:
                    dps.append([v, []])
            dps.sort(key=lambda v: len(v[1]) == 0) if len(dps) < 2 else None
            if any(not a[1] and b[1] for a, b in zip(dps, dps[1:])):
                dps = [[v, []] for v, _ in dps]
            m["derived"].append([name, dps, cond([v for v, _ in dps], 1)])
    return m


def implicit_parents(rng, m):
    """Leave some parent types undeclared: mentioned only as a parent."""
    ps = {p for _, p in m["types"] if p}
    m["types"] = [t for t in m["types"] if not (t[0] in ps and t[1] is None and rng.random() < 0.6)]


def gen_problem(rng, dm):
    nm = Names(rng)
    m = {"kind": "problem", "name": nm.new("pb"), "domain": dm["name"]}
    m["reqs"] = [r for r in dm["reqs"] if rng.random() < 0.5] if rng.random() < 0.4 else []
    tn = [t for t, _ in dm["types"]] if ":typing" in dm["reqs"] or ":adl" in dm["reqs"] else []
    m["objects"] = [[nm.new("o"), rng.choice(tn) if tn and rng.random() < 0.8 else None]
                    for _ in range(rng.randint(1, 6) if not dm.get("bulk") else rng.choice([50, 300, 700]))]
    on = [o for o, _ in m["objects"]]

    quirk = dm.get("quirk", {})

    def ground(x):
        if not x[1] and quirk.get("bare") and x in dm["funcs"] and rng.random() < 0.5:
            return x[0]
        return [x[0]] + [rng.choice(on) for _ in x[1]]

    m["init"] = []
    for _ in range(rng.randint(0, 7) if not dm.get("bulk") else rng.choice([7, 60, 150])):
        a = ground(rng.choice(dm["preds"]))
        if a not in m["init"]:
            m["init"].append(a if rng.random() < 0.85 else ["not", a])
    num = ["0", "1", "42"] + (["0.5", "0.00001", "7.0"] if dm["feats"]["decimals"] else [])
    for x in dm["funcs"]:
        for _ in range(rng.randint(0, 2)):
            a = ["=", ground(x), rng.choice(num)]
            if a not in m["init"] and a[1] not in [i[1] for i in m["init"] if i[0] == "="]:
                m["init"].append(a)

    def goal(d):
        r = rng.random()
        if d and r < 0.5:
            return ["and"] + [goal(d - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
        if d and r < 0.6:
            return ["not", goal(d - 1)]
        if dm["funcs"] and r < 0.7:
            return [rng.choice(["<", "<=", ">", ">="] + ["="] * (not quirk.get("bare"))), ground(rng.choice(dm["funcs"])), rng.choice(num)]
        return ground(rng.choice(dm["preds"]))

    m["goal"] = goal(2)
    m["metric"] = None
    if dm["funcs"] and rng.random() < 0.6:
        def me(d):
            r = rng.random()
            if d and r < 0.5:
                op = rng.choice("+*/")
                return [op, me(d - 1), me(d - 1)]
            if r < 0.6:
                return rng.choice(num)
            return ground(rng.choice(dm["funcs"]))
        m["metric"] = [rng.choice(["minimize", "maximize"]), me(2)]
    return m


def gen_plan(rng, dm, pm):
    on = [o for o, _ in pm["objects"]] + [c for c, _ in dm["constants"]]
    acts = dm["actions"]
    if not acts:
        return {"kind": "plan", "steps": []}
    return {"kind": "plan", "steps": [[a[0]] + [rng.choice(on) for _ in a[1]]
                                      for a in (rng.choice(acts) for _ in range(rng.randint(0, 6) if not dm.get("bulk") else rng.choice([40, 400])))]}


# ---------------------------------------------------------------- rendering

class Style:
    """White space and comments; drawn from its own rng so that content and layout shrink independently."""

    def __init__(self, rng=None, comments=True, group=None):
        self.rng = rng
        self.comments = comments and rng is not None and rng.random() < 0.4
        self.wild = rng is not None and rng.random() < 0.3
        self.group = (rng.random() < 0.5 if rng is not None else True) if group is None else group
        self.crlf = rng is not None and rng.random() < 0.1

    def sep(self):
        if self.rng is None:
            return " "
        s = " "
        if self.wild:
            s = self.rng.choice([" ", "\n", "\t", "  ", "\n    "])
        if self.comments and self.rng.random() < 0.08:
            s += self.rng.choice(["; note\n", ";)\n", "; (define (domain x)\n", ";; caf\u00e9 \u2603 (\n", ";\n"])
        return s


def typed(items, st):
    """items: [name, types-list-or-None-or-name]; returns token list."""
    out, i = [], 0
    while i < len(items):
        j = i + 1
        ts = items[i][1]
        if st.group:
            while j < len(items) and items[j][1] == ts:
                j += 1
        out += [x[0] for x in items[i:j]]
        if isinstance(ts, list):
            if len(ts) > 1:
                out += ["-", ["either"] + ts]
            elif ts:
                out += ["-", ts[0]]
        elif ts is not None:
            out += ["-", ts]
        i = j
    return out


def untyped_last(items):
    return sorted(items, key=lambda x: not x[1])


def resolve(x, st):
    if isinstance(x, str):
        return x
    if x and x[0] == "@vars":
        return typed(x[1], st)
    return [resolve(y, st) for y in x]


def text_of(sx, st):
    if isinstance(sx, str):
        return sx
    if not sx:
        return "()"
    parts = [text_of(y, st) for y in sx]
    out = "(" + parts[0]
    for q in parts[1:]:
        out += st.sep() + q
    return out + ")"


def domain_sx(m, st):
    sx = ["define", ["domain", m["name"]]]
    if m["reqs"]:
        sx.append([":requirements"] + m["reqs"])
    if m["types"]:
        # a type without parent can only be last or be given the explicit root
        ty = m["types"]
        if any(p for _, p in ty):
            ty = untyped_last(ty) if st.group else [[t, p or "object"] for t, p in ty]
        sx.append([":types"] + typed(ty, st))
    if m["constants"]:
        sx.append([":constants"] + typed(untyped_last(m["constants"]), st))
    sx.append([":predicates"] + [[p] + typed(ps, st) for p, ps in m["preds"]])
    if m["funcs"]:
        fs = [[f] + typed(ps, st) for f, ps in m["funcs"]]
        if m["func_number"]:
            k = len(fs)
            if m.get("numbered"):  # only some have the type
                fs.sort(key=lambda f: f[0] not in m["numbered"])
                k = sum(f[0] in m["numbered"] for f in fs)
            fs = fs[:k] + ["-", "number"] + fs[k:]
        sx.append([":functions"] + fs)
    body = [[":action", a, ":parameters", typed(ps, st), ":precondition", resolve(pre, st), ":effect", resolve(ef, st)]
            for a, ps, pre, ef in m["actions"]]
    der = [[":derived", [p] + typed(ps, st), resolve(c, st)] for p, ps, c in m["derived"]]
    mix = m.get("mix")
    parts = body + der
    if mix:
        parts = [parts[i % len(parts)] for i in mix] if sorted(mix) == list(range(len(parts))) else parts
    return sx + parts


def problem_sx(m, st):
    sx = ["define", ["problem", m["name"]], [":domain", m["domain"]]]
    if m["reqs"]:
        sx.append([":requirements"] + m["reqs"])
    if m["objects"]:
        sx.append([":objects"] + typed(untyped_last(m["objects"]), st))
    sx.append([":init"] + m["init"])
    sx.append([":goal", m["goal"]])
    if m["metric"]:
        sx.append([":metric"] + m["metric"])
    return sx


def render(m, st):
    if m["kind"] == "domain":
        t = text_of(domain_sx(m, st), st)
    elif m["kind"] == "problem":
        t = text_of(problem_sx(m, st), st)
    else:
        t = ("\n" if not st.wild else " ").join(text_of(s, st) for s in m["steps"])
    if st.rng is not None and st.rng.random() < 0.5:
        t += "\n"
    if st.comments and st.rng.random() < 0.5:
        t = "; header (\n" + t
    if st.crlf:
        t = t.replace("\n", "\r\n")
    return t


def permute(m, rng):
    """The same model with its unordered sections listed in another order."""
    import copy
    m = copy.deepcopy(m)

    def vs(ps):  # quantified variables are a set
        rng.shuffle(ps)
        for p in ps:
            rng.shuffle(p[1])
        ps.sort(key=lambda v: len(v[1]) == 0)

    def walk(x):
        if isinstance(x, list):
            if x and x[0] == "@vars":
                vs(x[1])
            else:
                for y in x:
                    walk(y)

    if m.get("reqs"):
        rng.shuffle(m["reqs"])
    if m["kind"] == "domain":
        for k in ("types", "constants", "preds", "funcs", "actions", "derived"):
            rng.shuffle(m[k])
        for p in m["preds"] + m["funcs"] + m["derived"]:
            for v in p[1]:
                rng.shuffle(v[1])
        for a in m["actions"]:
            for v in a[1]:
                rng.shuffle(v[1])
            walk(a[2])
            walk(a[3])
        for d in m["derived"]:
            walk(d[2])
        n = len(m["actions"]) + len(m["derived"])
        m["mix"] = rng.sample(range(n), n)
    elif m["kind"] == "problem":
        for k in ("objects", "init"):
            rng.shuffle(m[k])
    return m


def shrink_model(m):
    """Smaller models: parts dropped, formulas replaced by their parts.  Some may no longer be valid."""
    import copy
    for k in ("actions", "derived", "funcs", "preds", "constants", "types", "objects", "init", "steps", "reqs"):
        n = w = len(m.get(k) or [])
        while w:
            for i in range(0, n, w):
                yield dict(m, **{k: m[k][:i] + m[k][i + w:]}, mix=None)
            w //= 2
    if m.get("metric"):
        yield dict(m, metric=None)
    for k in ("actions", "derived"):
        for i, a in enumerate(m.get(k) or []):
            for j in range(1, len(a)):
                if a[j] and isinstance(a[j], list):
                    parts = [] if j == 1 else [["and"]] + [y for y in a[j][1:] if isinstance(y, list)]
                    for part in parts + [a[j][:x] + a[j][x + 1:] for x in range(len(a[j]))]:
                        c = copy.deepcopy(m)
                        c[k][i][j] = copy.deepcopy(part)
                        if c[k][i][j] != a[j]:
                            yield c


# ---------------------------------------------------------------- independent reader (tokens, brackets)

def scan(text):
    """Tokens with positions, comments and white space skipped: [(tok, start, end)]."""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c == ";":
            j = text.find("\n", i)
            i = n if j < 0 else j
        elif c.isspace():
            i += 1
        elif c in "()":
            out.append((c, i, i + 1))
            i += 1
        else:
            j = i
            while j < n and text[j] not in "();" and not text[j].isspace():
                j += 1
            out.append((text[i:j], i, j))
            i = j
    return out


def sexprs(text):
    """Nested lists of [tok | list]; None if brackets are unbalanced."""
    stack, cur = [], []
    for t, _, _ in scan(text):
        if t == "(":
            stack.append(cur)
            cur = []
        elif t == ")":
            if not stack:
                return None
            x = cur
            cur = stack.pop()
            cur.append(x)
        else:
            cur.append(t)
    return cur if not stack else None


def unparse(x):
    return x if isinstance(x, str) else "(" + " ".join(unparse(y) for y in x) + ")"


# ---------------------------------------------------------------- damage for the "rejected" class of inputs

def break_text(rng, text):
    """A text that is most likely invalid: one local damage."""
    toks = scan(text)
    if not toks:
        return text + ")"
    k = rng.choice(["cut", "drop", "dup", "swap", "keyword", "undef", "char", "req", "tail", "late"])
    t, a, b = toks[rng.randrange(len(toks))]
    if k == "cut":
        return text[:a]
    if k == "drop":
        return text[:a] + " " + text[b:]
    if k == "dup":
        return text[:b] + " " + t + " " + text[b:]
    if k == "swap":
        u, c, d = toks[rng.randrange(len(toks))]
        if c > b:
            return text[:a] + u + text[b:c] + t + text[d:]
        return text[:a] + ")" + text[b:]
    if k == "keyword":
        return text[:a] + rng.choice(["and", "either", "when", "object", "define", ":goal", "="]) + text[b:]
    if k == "undef":
        return text[:a] + "undefined-thing" + text[b:]
    if k == "char":
        return text[:a] + rng.choice(["@", "\x00", "\u00e9", "#", "'", "{"]) + text[a:]
    if k == "req":
        return text.replace(":typing", ":strips").replace(":equality", ":strips").replace(
            ":disjunctive-preconditions", ":strips").replace(":adl", ":strips")
    if k == "late":  # near the end, so that most of the text has been processed
        t, a, b = toks[max(0, len(toks) - 1 - rng.randrange(min(8, len(toks))))]
        return text[:a] + " undefined-thing " + text[b:]
    return text + rng.choice([")", " (", " x", text[: len(text) // 2]])
