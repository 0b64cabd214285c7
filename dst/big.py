"""Families of large, deep, cyclic and hopeless texts, by size n (used by C13).  Each gives (kind, text)."""
REQ = ("(:requirements :strips :typing :adl :numeric-fluents :derived-predicates :non-deterministic :action-costs "
       ":conditional-effects :disjunctive-preconditions :quantified-preconditions :equality)")


def dom(body, types="", preds="(p) (q ?x)", consts="", funcs="", act=True):
    a = "(:action a0 :parameters (?x) :precondition (q ?x) :effect (p))" if act else ""
    return "domain", f"(define (domain d) {REQ} {f'(:types {types})' if types else ''} {consts} (:predicates {preds}) {funcs} {body} {a})"


def act(pre="(p)", eff="(p)", params=""):
    return f"(:action a1 :parameters ({params}) :precondition {pre} :effect {eff})"


def prob(objects="", init="", goal="(p)", extra=""):
    return "problem", f"(define (problem pb) (:domain d) {f'(:objects {objects})' if objects else ''} (:init {init}) (:goal {goal}) {extra})"


def nest(n, wrap, core="(p)"):
    pre, post = wrap
    return pre * n + core + post * n


def _types(pairs):
    return " ".join(f"{a} - {b}" for a, b in pairs)


def chain(n, r, cyc=0, up=False):
    """t0 - t1 - ... - tn (child first or parent first); cyc: the last points back."""
    p = [(f"t{i}", f"t{i + 1}") for i in range(n)]
    if cyc:
        p.append((f"t{n}", f"t{max(0, n - cyc + 1)}"))
    if up:
        p.reverse()
    else:
        k = r.randrange(3)
        if k == 1:
            r.shuffle(p)
    return p


def f_chain(n, r):
    p = chain(n, r, up=r.random() < 0.5)
    return dom(f"(:derived (q ?x - t0) (p))", _types(p) + f" t{n} - object", f"(p) (q ?x - {r.choice([f't{n}', 't1', 't0', 'object'])})",
               act=False)


def f_chain_miss(n, r):
    p = chain(n, r)
    return dom(f"(:derived (q ?x - t0) (p))", _types(p) + f" t{n} - object z - object", "(p) (q ?x - z)", act=False)


def f_cycle(n, r):
    p = chain(n, r, cyc=r.choice([1, 2, 3, max(1, n // 2), n + 1]))
    return dom(f"(:derived (q ?x - t0) (p))", _types(p) + " z - object", f"(p) (q ?x - {r.choice(['z', 't1', f't{n}'])})", act=False)


def f_cycle_either(n, r):
    p = chain(n, r, cyc=r.choice([1, 2, n + 1]))
    return dom(f"(:derived (q ?x - (either {' '.join(f't{i}' for i in range(n))})) (p))", _types(p) + " z - object",
               "(p) (q ?x - (either z t1))", act=False)


def f_star(n, r):
    return dom("(:derived (q ?x - (either %s)) (p))" % " ".join(f"s{i}" for i in range(n)), " ".join(f"s{i}" for i in range(n)) + " - top",
               "(p) (q ?x - top)", act=False)


def f_either(n, r):
    t = " ".join(f"s{i}" for i in range(n))
    return dom(act(params="?x - (either %s)" % t, pre="(q ?x)"), t, "(p) (q ?x - (either %s))" % t, act=False)


def f_consts(n, r):
    return dom("", "", consts="(:constants %s)" % " ".join(f"c{i}" for i in range(n)))


def f_preds(n, r):
    return dom("", "", "(p) (q ?x) " + " ".join(f"(r{i} ?a ?b)" for i in range(n)))


def f_args(n, r):
    return dom(act(params=" ".join(f"?x{i}" for i in range(n)), pre="(w %s)" % " ".join(f"?x{i}" for i in range(n))), "",
               "(p) (q ?x) (w %s)" % " ".join(f"?x{i}" for i in range(n)))


def f_actions(n, r):
    return dom(" ".join(f"(:action b{i} :parameters (?x) :precondition (q ?x) :effect (not (q ?x)))" for i in range(n)))


def f_funcs(n, r):
    return dom("", funcs="(:functions %s)" % " ".join(f"(g{i} ?a) - number" for i in range(n)))


def f_derived(n, r):
    return dom(" ".join(f"(:derived (q ?x) (and (p) (r{i} ?x)))" for i in range(n)), "",
               "(p) (q ?x) " + " ".join(f"(r{i} ?a)" for i in range(n)))


WRAPS = {"and": ("(and (p) ", ")"), "or": ("(or (p) ", ")"), "not": ("(not ", ")"), "imply": ("(imply (p) ", ")"),
         "imply_l": ("(imply ", " (p))"), "forall": ("(forall (?z) ", ")"), "exists": ("(exists (?z) ", ")"),
         "andor": ("(and (or (p) ", "))"), "and1": ("(and ", ")"), "notand": ("(not (and (p) ", "))")}


def f_nest(n, r):
    return dom(act(pre=nest(n, WRAPS[r.choice(sorted(WRAPS))])))


def f_nest_vars(n, r):
    w = r.choice(["forall", "exists"])
    s = "".join(f"({w} (?z{i}) " for i in range(n)) + "(q ?z0)" + ")" * n
    return dom(act(pre=s))


def f_nest_eff(n, r):
    w = r.choice([("(forall (?z) ", ")"), ("(oneof (p) ", ")"), ("(and (forall (?z) ", "))"), ("(oneof (p) (and (p) ", "))")])
    return dom(act(eff=nest(n, w)))


def f_nest_num(n, r):
    w = r.choice([("(+ 1 ", ")"), ("(* (g) ", ")"), ("(- (g) ", ")"), ("(/ ", " 2)"), ("(+ ", " 1)")])
    e = nest(n, w, "(g)")
    return dom(act(pre=f"(> {e} 3)", eff=f"(increase (g) {e})"), funcs="(:functions (g) - number)")


def f_wide(n, r):
    w = r.choice(["and", "or", "and", "oneof"])
    xs = " ".join(r.choice([f"(r{i % 7} ?x)", "(p)", f"(not (r{i % 5} ?x))"]) for i in range(n))
    a = act(pre=f"({w} {xs})", params="?x") if w != "oneof" else act(eff=f"(oneof {xs})", params="?x")
    return dom(a, "", "(p) (q ?x) " + " ".join(f"(r{i} ?a)" for i in range(7)))


def f_tree(n, r):
    """A bushy formula of about n nodes."""
    def go(k):
        if k <= 1:
            return r.choice(["(p)", "(q ?x)", "(not (p))"])
        w = r.choice(["and", "or", "and", "imply"])
        m = 2 if w == "imply" else r.randint(2, 3)
        return f"({w} {' '.join(go(k // m) for _ in range(m))})"
    return dom(act(pre=go(n), params="?x"))


def f_twice(n, r):
    """A balanced tree of equal halves: 2^depth leaves, n nodes."""
    s = "(q ?x)"
    while len(s) < n * 6:
        s = f"({r.choice(['imply', 'imply', 'or', 'and'])} {s} {s})" if r.random() < 0.5 else f"(imply {s} (not {s}))"
    return dom(act(pre=s, params="?x"))


def f_objects(n, r):
    return prob(" ".join(f"o{i}" for i in range(n)), "(p)")


def f_init(n, r):
    return prob(" ".join(f"o{i}" for i in range(max(2, n // 4))), " ".join(f"(r{i % 5} o{i % max(2, n // 4)} o{i % 3 % max(2, n // 4)})"
                                                                            for i in range(n)))


def f_init_num(n, r):
    return prob("o1 o2", " ".join(f"(= (g{i}) {i}.5)" for i in range(n)))


def f_goal(n, r):
    return prob("o1", "(p)", nest(n, r.choice([WRAPS["and"], WRAPS["not"], WRAPS["and1"], WRAPS["notand"]])))


def f_metric(n, r):
    return prob("o1", "(p)", extra="(:metric minimize %s)" % nest(n, ("(+ 1 ", ")"), "(g)"))


def f_plan(n, r):
    return "plan", "\n".join(f"(a{i % 3} o{i % 5} o1)" for i in range(n))


def f_plan_wide(n, r):
    return "plan", "(a0 %s)" % " ".join(f"o{i % 9}" for i in range(n))


def f_open(n, r):
    return r.choice(["domain", "problem", "plan"]), r.choice(["(" * n, ")" * n, "(define " * n, "(define (domain d) " + "(" * n, "()" * n])


def f_comment(n, r):
    k, t = dom("")
    return k, "\n".join(f"; {'(' * (i % 7)} x{i}" for i in range(n)) + "\n" + t + ";" * n


def f_space(n, r):
    k, t = dom("")
    return k, t.replace(" ", r.choice([" ", "\n", "\t"]) * n)


def f_word(n, r):
    w = r.choice(["a" * n, "a-" * n, "a_" * n, "a" * n + "!", "-" * n, "?" * n, "a1" * n + "$", "?" + "b" * n, ":" + "c" * n])
    return r.choice([dom("", "", f"(p) ({w})"), dom(f"(:action {w} :parameters (?x) :precondition (p) :effect (p))"), prob(w, "(p)"),
                     ("plan", f"({w} {w})"), dom(act(pre=f"({w} ?x)", params="?x"))])


def f_number(n, r):
    n *= r.choice([1, 1, 1, 10, 50])
    w = r.choice(["1" * n, "0." + "3" * n, "1." * n, "0" * n, "1" * n + "." + "0" * n, "1e" + "9" * n, "-" + "1" * n])
    return r.choice([prob("o1", f"(= (g) {w})"), dom(act(eff=f"(increase (g) {w})"), funcs="(:functions (g) - number)")])


def f_dashes(n, r):
    return dom("", r.choice(["a - " * n, "- " * n, "a - b " * n, "a - (either " * n, "(either " * n + "a"]))


def f_reqs(n, r):
    return "domain", f"(define (domain d) (:requirements {' '.join([':strips', ':typing'] * n)}) (:predicates (p)))"


def f_repeat(n, r):
    s = r.choice(["(:types a)", "(:constants c)", "(:predicates (p))", "(:requirements :strips)", "(:derived (p) (p))", "(:functions (g))"])
    return dom(s * n)


FAM = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith("f_")}
