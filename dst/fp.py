"""Structural fingerprints of model objects, through their public properties only.

Sets become sorted lists, names plain strings, numbers their decimal value; two objects describe the same thing iff
their fingerprints are equal.  Independent of the library's __eq__ / __hash__.
"""
from decimal import Decimal


def num(v):
    try:
        d = Decimal(str(v))
    except ArithmeticError:
        return str(v)
    return "0" if d == 0 else str(d.normalize())


def key(x):
    return repr(x)


def _set(xs):
    return sorted((fp(x) for x in xs), key=key)


def _term(t):
    return [type(t).__name__, str(t.name), sorted(map(str, t.type_tags))]


def _types(d):
    return sorted([str(k), None if v is None else str(v)] for k, v in d.items())


_A = {
    "Domain": lambda o: [str(o.name), sorted(str(r) for r in o.requirements), _types(o.types), _set(o.constants),
                         _set(o.predicates), sorted(([fp(k), None if v is None else str(v)]
                                                     for k, v in o.functions.items()), key=key),
                         _set(o.derived_predicates), _set(o.actions)],
    "Problem": lambda o: [str(o.name), str(o.domain_name), sorted(str(r) for r in o.requirements), _set(o.objects),
                          _set(o.init), fp(o.goal), fp(o.metric)],
    "Plan": lambda o: [[str(n), [fp(p) for p in ps]] for n, ps in o.actions],
    "Action": lambda o: [str(o.name), [fp(p) for p in o.parameters], fp(o.precondition), fp(o.effect)],
    "Predicate": lambda o: [str(o.name), [fp(t) for t in o.terms]],
    "DerivedPredicate": lambda o: [fp(o.predicate), fp(o.condition)],
    "NumericFunction": lambda o: [str(o.name), [fp(t) for t in o.terms]],
    "NumericValue": lambda o: [num(o.value)],
    "Metric": lambda o: [str(o.optimization), fp(o.expression)],
    "When": lambda o: [fp(o.condition), fp(o.effect)],
    "Forall": lambda o: [_set(o.variables), fp(o.effect)],
    "ForallCondition": lambda o: [_set(o.variables), fp(o.condition)],
    "ExistsCondition": lambda o: [_set(o.variables), fp(o.condition)],
    "Not": lambda o: [fp(o.argument)],
}
for _n in ("And Or OneOf Imply LesserThan LesserEqualThan GreaterThan GreaterEqualThan Assign ScaleUp ScaleDown "
           "Increase Decrease Minus Plus Times Divide").split():
    _A[_n] = lambda o: [fp(x) for x in o.operands]


def fp(o):
    if o is None or isinstance(o, bool):
        return o
    if isinstance(o, str):
        return str(o)
    if isinstance(o, (int, float)):
        return num(o)
    n = type(o).__name__
    if n in ("Variable", "Constant"):
        return _term(o)
    if n == "EqualTo":
        if hasattr(o, "left"):
            return ["EqualTo", fp(o.left), fp(o.right)]
        return ["NumEqualTo"] + [fp(x) for x in o.operands]
    if n in _A:
        return [n] + _A[n](o)
    if isinstance(o, (list, tuple)):
        return ["seq"] + [fp(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return ["set"] + _set(o)
    if isinstance(o, dict):
        return ["map"] + sorted(([fp(k), fp(v)] for k, v in o.items()), key=key)
    if n == "Requirements":
        return str(o)
    return [n, repr(o)]


def norm_types(f):
    """Parents that are only mentioned count as declared without a parent (which is how they are printed)."""
    if isinstance(f, list) and f and f[0] == "Domain":
        d = dict(map(tuple, f[3]))
        for p in list(d.values()):
            if p is not None:
                d.setdefault(p, None)
        f = list(f)
        f[3] = sorted([k, v] for k, v in d.items())
    return f


def diff(a, b, path=""):
    """First place where two fingerprints differ, for messages."""
    if type(a) is not type(b) or not isinstance(a, list):
        return None if a == b else f"{path}: {str(a)[:160]} != {str(b)[:160]}"
    for i, (x, y) in enumerate(zip(a, b)):
        d = diff(x, y, f"{path}/{a[0] if i and isinstance(a[0], str) else ''}{i}")
        if d:
            return d
    if len(a) != len(b):
        return f"{path}: {len(a)} items != {len(b)}: {str(a)[:160]} / {str(b)[:160]}"
    return None
