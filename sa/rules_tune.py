"""Parameter tuner rules."""
from . import scen_tune as sc
from .registry import check, Result
from .rules_ref import TECH, NOTE, decide, load_specs, guarded, where

T1 = "count, mean and sample variance are those of the values pushed since the last clear"


@check("T01", technique="inductive invariant over value-graph summaries: each attribute is matched with a closed form in the number, sum "
                        "and sum of squares of the values, and one push from a state of that form is proved to lead to the next; " + TECH,
       note="Any number of values and clears; arithmetic over the reals.")
def statistic(pid, prog, tier):
    r = Result()
    load_specs(prog)
    n = 5 if tier == "quick" else 7
    decide(r, prog, "histories of up to %d steps" % n, lambda p: sc.stat(p, n), sc.instances, lambda x: True, "RunningStat.push", T1)
    z, why = guarded(lambda: sc.inductive(prog), 200)
    at = where(prog, "RunningStat.push")
    if z is None:
        r.unsure("invariant: %s" % why, at, T1)
    else:
        out, inv = z
        r.coverage["invariant"] = {k: v or "unconstrained" for k, v in sorted(inv.items())}
        for q, w in out.items():
            if w:
                r.unsure("%s: %s" % (q, w), at, T1)
        r.coverage["inductive_obligations_proved"] = sum(1 for w in out.values() if not w)
    r.coverage["rule_applied"] = T1
    r.explanation = "Bounded histories are compared with the reference; the invariant extends the result to all histories."
    return r


T2 = "the proposal is a registered value and a score without index changes the statistics of that value only"


@check("T02", technique="value-graph comparison from an arbitrary state of the parameter (inductive step), the random choice being any "
                        "registered index; " + TECH,
       note="Parameters with one to three values; every budget, flag, count and final score.")
def parameter(pid, prog, tier):
    r = Result()
    load_specs(prog)
    for n in range(1, 4):
        decide(r, prog, "%d values, no index" % n, sc.credit(n), sc.instances, lambda x: True, "Parameter.adjust_score", T2)
        decide(r, prog, "%d values, last index" % n, sc.credit(n, n - 1), sc.instances, lambda x: True, "Parameter.adjust_score", T2)
    decide(r, prog, "3 values, first index", sc.credit(3, 0), sc.instances, lambda x: True, "Parameter.adjust_score", T2)
    decide(r, prog, "2 values, two proposals and two scores", sc.repeated(2), sc.instances, lambda x: True, "Parameter.adjust_score", T2)
    r.coverage["rule_applied"] = T2
    r.explanation = "One proposal and one score from an arbitrary state; by induction this covers every history."
    return r


T3 = ("one solver run under the given limit with a fresh proposal of every tunable parameter, then one score for each of them, "
      "minus the sum of time score and gap, and one recorded time and gap")


@check("T03", technique="value-graph comparison of the tuned solve with a reference scoring function, proposals and scores observed "
                        "through ghost counters of the parameter objects; " + TECH,
       note="Two consecutive solves; every status, time, objective value and bound; arithmetic over the reals.")
def solve(pid, prog, tier):
    r = Result()
    load_specs(prog)
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        decide(r, prog, "%d solves" % n, sc.tuned(n), sc.solve_instances, lambda x: True, "BaseSubproblem.solve_model", T3)
    decide(r, prog, "CP-SAT pricing", sc.through_tuner, sc.solve_instances, lambda x: "solver runs" in x,
           "DTreeSubProblemSat.generate_columns", T3)
    r.coverage["rule_applied"] = T3
    r.explanation = "Consecutive solves of one subproblem are compared with the reference."
    return r
