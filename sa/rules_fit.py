"""C01-C07: the training loop (typestate dataflow, see fitflow)."""
from . import source, fitflow
from .registry import check, Result

_cache = {}


def flow(prog):
    if prog.root not in _cache:
        f = fitflow.FitFlow(prog)
        err = None
        try:
            f.run()
        except fitflow.GiveUp as e:
            err = e
        _cache[prog.root] = (f, err)
    return _cache[prog.root]


RULES = {
    "C01": "at every normal exit mp_optimal_ == (all subproblems asked after the last master solve, none accepted) "
           "and time_limit_reached_ == (the pricing was left because the elapsed time exceeded the limit)",
    "C02": "typestate solve -> update every subproblem once with the duals of that solve -> ask in level order until "
           "a column is accepted",
    "C03": "each element of a generated list reaches add_column exactly once and unmodified before the next pricing "
           "call or master solve; counter increments == accepted columns",
    "C04": "solve_rmp only while (number of solves) < limit; generate_columns only after a fresh clock comparison; "
           "clock (re)started only before building or when the master asks",
    "C05": "validate -> reject single class -> generate_mp once -> solve_rmp -> ... -> solve_ip exactly if asked -> "
           "fitted -> return self",
    "C06": "arguments X, y of every master / subproblem call are the validated matrix and the output of the stored "
           "label encoder",
    "C07": "iter_ == performed_iter_ == ghost solve counter, num_improving_iter_ == ghost improvement counter, "
           "per-subproblem statistics have the shape of the subproblem lists, durations go to the timed slot",
}


@check("C01", "C02", "C03", "C04", "C05", "C06", "C07",
       technique="path-sensitive typestate dataflow over the training loop (property simulation to a fixpoint, "
                 "helpers analysed in context)",
       note="All paths through ColGenClassifier.fit and the helpers it calls, for any number of levels, subproblems, "
            "columns and iterations; overriding master/subproblem methods are taken at their documented interface.")
def run(pid, prog, tier):
    r = Result()
    f, err = flow(prog)
    for (p, msg), (file, line) in f.viol.items():
        if p == pid or (pid == "C07" and p == "C03" and "counter" in msg):
            r.bad(msg, (file, line), RULES[pid])
    for (p, msg), (file, line) in f.und.items():
        if p == pid:
            r.unsure(msg, (file, line), RULES[pid])
    if err is not None:
        r.unsure("analysis of fit gave up: %s" % err.msg, (f.fit.mod.path, f.fit.node.lineno), RULES[pid])
    ev = f.stats["events"]
    r.coverage = dict(rule_applied=RULES[pid], function="%s.fit" % f.cls.name,
                      contexts=f.stats["contexts"], abstract_loop_states=f.stats["states"],
                      abstract_transitions=f.stats["transitions"], loop_fixpoints=f.stats["loops"],
                      call_transfers=f.stats["calls"], protocol_events=ev)
    r.explanation = "Abstract states of fit explored to a fixpoint in every context (limit signs x integer solve x " \
                    "class count); each protocol event and exit is an obligation."
    r.assumptions = ["master and subproblem methods called by fit do not themselves change the estimator",
                     "clock readings never decrease"]
    if not err and not r.violations and not ev.get("return"):
        raise source.Broken("no normal exit of fit was analysed")
    if pid == "C06":
        from . import rules_predict
        rules_predict.extend(r, prog, f)
    return r
