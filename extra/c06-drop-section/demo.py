from pddl.parser.problem import ProblemParser
try:
    p = ProblemParser()("(define (problem p) (:domain d) (:objects a) (:init (r a)) (:init (q a)) (:goal (q a)))")
except Exception:
    raise SystemExit(0)
raise SystemExit("accepted: " + str(p))
