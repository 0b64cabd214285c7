from pddl.parser.plan import PlanParser
try:
    p = PlanParser()("(go a b)\n(go b c")
except Exception:
    raise SystemExit(0)
assert str(p) == "(go a b)", str(p)
