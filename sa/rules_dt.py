"""Decision tree rules."""
from fractions import Fraction

from . import scen_dt as sc
from .registry import check, Result
from .rules_ref import rule, decide, guarded, load_specs, where, TECH, NOTE
from .term import T, show


def sel(*pre):
    return lambda n: any(n.startswith(p) for p in pre)


ALL = sel("")
I = sc.instances
M = "DTreeMasterProblem."


def tests_change_nothing(r, prog, text):
    """The set-based tests leave the rows and cuts recorded at the splits alone (the next test starts from them)."""
    for f in ("get_satisfied_rows", "get_satisfied_cuts"):
        z, why = guarded(lambda: sc.side_effects(prog, f), 100)
        if z is None:
            r.unsure("%s: %s" % (f, why), where(prog, f), text)
        for what in z or ():
            r.bad("%s: changes the %s it is asked about, so later answers differ" % (f, what), where(prog, f), text)


rule("D03", extra=tests_change_nothing, text="a row (cut) follows a path iff it takes the leaf's side at every node of the path: the direct test and the "
                 "set-based tests are that predicate, and so is every place of the master that uses one",
     parts=[("membership tests", sc.follows, I, ALL, {"row follows": "row_satisfies_path", "rows": "get_satisfied_rows",
                                                      "cuts": "get_satisfied_cuts"}),
            ("initial master", sc.master, sc.instances_both, sel("model 1 con"), M + "generate_mp"),
            ("path added", sc.added, sc.instances_both, sel("model 1 con"), M + "add_column")])
rule("D04", text="the restricted tree master handed to the LP solver is the documented model",
     parts=[("initial master", sc.master, sc.instances_both, sel("model 1"), M + "generate_mp")])
rule("D05", text="a path added to the tree master gets one variable with the coefficients of an initial path",
     parts=[("path added", sc.added, sc.instances_both, sel("model 1", "accepted"), M + "add_column"),
            ("path added before rows are separated", sc.lazy, sc.instances_both, sel("model 2", "row reaches"), M + "add_column"),
            ("path added after cuts", sc.cuts, sc.instances_cuts, sel("model 4"), M + "add_column"),
            ("path added after rows are separated", sc.rows_path, sc.instances_both, sel("model 2"), M + "add_column")])
rule("D06", text="separated rows contain exactly the current paths that follow them, and only violated rows are separated",
     parts=[("rows separated", sc.lazy, sc.instances_both, sel("model", "number"), M + "add_beta_cuts"),
            ("rows separated twice", sc.rows_rows, sc.instances_both, sel("model", "number"), M + "add_beta_cuts")])
rule("D08", text="solve_rmp returns the duals of the last LP solve in leaf, row, leaf/node/split and cut order and the split assignments of "
                 "the cuts of this call",
     parts=[("duals of the initial master", sc.master, I, sel("duals"), M + "solve_rmp"),
            ("duals after separation", sc.lazy, I, sel("duals"), M + "solve_rmp"),
           ("duals after separation and a new path", sc.rows_path, I, sel("duals"), M + "solve_rmp"),
           ("rows separated in the call", sc.solved(1, 0, 1), I, sel("duals"), M + "solve_rmp"),
           ("two rounds of cuts in the call", sc.solved(0, 1, 2), sc.instances_cuts, sel("duals"), M + "solve_rmp"),
           ("rows or cuts in the call", sc.solved(1, 1, 1), sc.instances_cuts, sel("duals"), M + "solve_rmp")])
CUTS = sel("split assignments", "cut on")
rule("D07", text="the cut model relates split assignments to the paths they follow; an assignment is a cut iff its paths' values sum to "
                 "more than one; it becomes an equality row over them under the number registered on the side of every split, and a "
                 "path added later has a coefficient in the rows of the assignments following it",
     parts=[("cut model", sc.cutmodel, I, sel("model 1 con", "model 1: con"), M + "create_cut_gen_model"),
            ("cuts and a path added", sc.cuts, sc.instances_cuts, lambda n: CUTS(n) or "con" in n and n[:7] in ("model 3", "model 4"), M + "add_cuts"),
            ("two rounds of cuts", sc.cuts_twice, sc.instances_cuts, lambda n: CUTS(n) or "con" in n and n.startswith("model 5"), M + "add_cuts")])
PM, PO = "DTreeSubProblem.", "DTreeSubProblemOld."
rule("D09", text="the pricing model of a leaf is the documented one, initially and after each of three rounds of duals and new cuts",
     parts=[("pricing, three rounds", sc.pricing_mip, I, sel("model"), PM + "update_objective"),
            ("pricing, one new cut in each round", sc.pricing_single, I, sel("model"), PM + "update_objective"),
            ("pricing without preprocessing", sc.pricing_plain, I, sel("model"), PM + "create_submip")])
rule("D11", text="the pricing model of a leaf and target is the documented one, initially and after each of three rounds of duals "
                 "and new cuts; the path's cost is the weight of its target's reached rows",
     parts=[("pricing per target, three rounds", sc.pricing_old, I, sel("model", "columns"), PO + "update_objective"),
            ("pricing per target, one new cut in each round", sc.pricing_old_single, I, sel("model", "columns"), PO + "update_objective"),
            ("pricing per target without preprocessing", sc.pricing_old_plain, I, sel("model", "columns"), PO + "create_submip")])
rule("D10", text="the CP-SAT pricing model of a leaf has the documented constraints and an objective ranking solutions as documented, "
                 "initially and after rounds of duals and new cuts; a solution is accepted by its unscaled reduced cost",
     parts=[("CP-SAT pricing, first cuts in the second round", sc.sat_late, I, ALL, "DTreeSubProblemSat.create_submip"),
            ("CP-SAT pricing, three rounds of cuts", sc.pricing_sat, I, ALL, "DTreeSubProblemSat.update_objective"),
            ("CP-SAT pricing, one new cut in each round", sc.sat_single, I, ALL, "DTreeSubProblemSat.update_objective"),
            ("CP-SAT pricing without preprocessing", sc.sat_plain, I, ALL, "DTreeSubProblemSat.create_submip")])
rule("D14", text="the tree is the set of paths selected in the integer solution of the complete current model; a sample is predicted "
                 "the target of a selected path it follows",
     parts=[("integer solves", sc.integer, I, ALL, M + "solve_ip"),
            ("integer solve after rows are separated", sc.integer_rows, I, lambda n: not n.startswith("model 2"), M + "solve_ip"),
            ("prediction", sc.predict, I, ALL, "DTreeClassifier.predict")])
rule("D16", text="the constructor refuses exactly the documented inputs and creates one heuristic and one exact problem per leaf "
                 "(per leaf and target in the original formulation) over the same tree, targets and rows as the master",
     parts=[("validation", sc.validation, I, ALL, "DTreeClassifier.__init__"),
            ("wiring", sc.wiring_sat, I, ALL, "DTreeClassifier.__init__"),
            ("wiring of the original formulation", sc.wiring_old, I, ALL, "DTreeClassifier.__init__")])
rule("D01", text="children, parents, leaf numbers and branch sides computed by leaf creation, path creation and row preprocessing are "
                 "those of the complete tree numbering",
     parts=[("leaf and path creation", sc.geometry, sc.instances_rows, ALL, {"leaf": "Leaf.create_leaf", "path": "Path.set_leaf"}),
            ("preprocessing", sc.preprocess_plain, sc.instances_rows, sel("node", "row: reachable_nodes", "row: reachable_leaves"),
             M + "preprocess_rows")])
rule("D15", text="reachable nodes and leaves are those of the recurrence over candidate splits; a row is removed only if it reaches at "
                 "most two leaves or a kept row reaches the same nodes by the same branches",
     parts=[("preprocessing", sc.preprocess_plain, sc.instances_rows, sel("number", "row"), M + "preprocess_rows"),
            ("aggressive preprocessing", sc.preprocess_merge, sc.instances_rows, sel("number", "row"), M + "preprocess_rows")])


# ---------------------------------------------------------------- thresholds
def odd_comparisons(t):
    """Comparisons of a row's value with a split's threshold that do not separate 'at most' from 'larger'."""
    found = []

    def threshold(q):
        """1 if q is value - threshold, -1 if threshold - value, 0 otherwise."""
        if q.op != "p" or len(q.a[0]) != 2:
            return 0
        thr = [c for m, c in q.a[0] if len(m) == 1 and m[0].op == "f" and m[0].a[:1] == ("attr",) and "threshold" in str(m[0].a[-1])]
        val = [c for m, c in q.a[0] if len(m) == 1 and m[0].op == "f" and m[0].a[0] == "sel"]
        return (1 if val[0] > 0 else -1) if len(thr) == 1 and len(val) == 1 and thr[0] == -val[0] else 0

    def cut_of(q, c):
        s = threshold(q)
        if s and tuple(c) != ((0, 0) if s > 0 else (0, -1)):
            found.append("%s cut at %s" % (show(q), c))
    seen = set()

    def go(x):
        if isinstance(x, T):
            if x in seen:
                return
            seen.add(x)
            if x.op == "d":
                for c in x.a[1]:
                    cut_of(x.a[0], c)
            for y in x.a:
                go(y)
        elif isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], T) and isinstance(x[1], tuple) and len(x[1]) == 2 and \
                    all(isinstance(z, (int, Fraction)) for z in x[1]):
                cut_of(*x)
            for y in x:
                go(y)
    go(t)
    return found


D02 = "a row's value is compared with a split's threshold so that values up to the threshold go left and larger values right"


@check("D02", technique=TECH + "; in the pricing models the threshold comparisons of every constraint's normal form are inspected", note=NOTE)
def d02(pid, prog, tier):
    r = Result()
    load_specs(prog)
    r.coverage["rule_applied"] = D02
    tries = 60 if tier == "quick" else 300
    decide(r, prog, "preprocessing", sc.preprocess_plain, sc.instances_rows, sel("row: left_splits", "row: right_splits"),
           M + "preprocess_rows", D02, tries=tries)
    decide(r, prog, "following a path", sc.follows, I, sel("row follows"), "row_satisfies_path", D02, tries=tries)
    for title, s, cls in (("pricing", sc.pricing_mip, "DTreeSubProblem"), ("pricing without preprocessing", sc.pricing_plain, "DTreeSubProblem"),
                          ("pricing per target", sc.pricing_old, "DTreeSubProblemOld"),
                          ("pricing per target without preprocessing", sc.pricing_old_plain, "DTreeSubProblemOld"),
                          ("CP-SAT pricing", sc.sat_late, "DTreeSubProblemSat"),
                          ("CP-SAT pricing without preprocessing", sc.sat_plain, "DTreeSubProblemSat")):
        rr = Result()
        c = decide(rr, prog, title, s, I, lambda n: n.startswith("model") and "con" in n, cls + ".create_submip", D02, tries=tries)
        for k in ("scenarios", "functions_summarised"):
            r.coverage[k] = sorted(set(r.coverage.get(k, [])) | set(rr.coverage.get(k, [])))
        for k in ("obligations_proved_identical", "statements_summarised"):
            r.coverage[k] = r.coverage.get(k, 0) + rr.coverage.get(k, 0)
        r.undecided += rr.undecided
        if c is None or not rr.violations:
            continue
        odd = []
        for m in getattr(c, "cm", []):
            for f in m.cons:
                odd += odd_comparisons((f.guard, f.cond))
        if odd:
            r.bad("%s: %s; the model admits other assignments than the documented one: %s" % (title, odd[0], rr.violations[0]["message"][:200]),
                  where(prog, cls + ".row_satisfies_split"), D02)
        else:
            r.unsure("%s: the model differs from the documented one, not in a comparison with a threshold" % title,
                     where(prog, cls + ".create_submip"), D02)
    for cls, s in (("DTreeSubProblem", sc.side_mip), ("DTreeSubProblemOld", sc.side_old), ("DTreeSubProblemSat", sc.side_sat)):
        decide(r, prog, "row against split (%s)" % cls, s, sc.instances_side, ALL, cls + ".row_satisfies_split", D02, tries=tries)
    r.explanation = "Row sides recorded by preprocessing, the direct path test and the side tests of the pricing problems are compared " \
                    "with the convention; the constraints of the pricing models are compared with those of the reference and a " \
                    "difference counts when a threshold comparison in them is cut elsewhere."
    return r


# ---------------------------------------------------------------- generated paths
H = "DTreeSubProblemHeuristic."
EXACT = [("pricing, three rounds", sc.pricing_mip, PM), ("pricing without preprocessing", sc.pricing_plain, PM),
         ("pricing per target, three rounds", sc.pricing_old, PO), ("pricing per target without preprocessing", sc.pricing_old_plain, PO),
         ("CP-SAT pricing", sc.sat_late, "DTreeSubProblemSat."), ("CP-SAT pricing without preprocessing", sc.sat_plain, "DTreeSubProblemSat.")]


def collect(r, rr):
    for k in ("scenarios", "functions_summarised"):
        r.coverage[k] = sorted(set(r.coverage.get(k, [])) | set(rr.coverage.get(k, [])))
    for k in ("obligations_proved_identical", "statements_summarised"):
        r.coverage[k] = r.coverage.get(k, 0) + rr.coverage.get(k, 0)
    r.undecided += rr.undecided


D12 = ("a path is returned only if the objective of the documented model, the documented reduced cost of the found solution or of the "
       "random path, is positive")


@check("D12", technique=TECH, note=NOTE)
def d12(pid, prog, tier):
    r = Result()
    load_specs(prog)
    tries = 60 if tier == "quick" else 300
    for title, s, cls in EXACT:
        sat = cls.startswith("DTreeSubProblemSat")
        rr = Result()
        c = decide(rr, prog, title, s, I, lambda n: n.startswith("number of columns") or (
            "positive only" in n and not sat), cls + "generate_columns", D12, tries=tries)
        if c is not None and not sat and any("objective" in n for n, _ in c.diffs + c.unsure):
            # the returned paths are accepted by an objective that is not the documented one
            rr.violations = [v for v in rr.violations if "positive only" in v["message"]]
        r.violations += rr.violations
        collect(r, rr)
    decide(r, prog, "reduced cost of a random path", sc.heuristic_cost, I, ALL, H + "get_reduced_cost", D12, tries=tries)
    for n in (0, 2):
        decide(r, prog, "random path followed by %d rows" % n, sc.heuristic(n), I, sel("number of columns", "the reduced cost", "the rows",
                                                                                 "rows of"), H + "generate_columns", D12, tries=tries)
    r.coverage["rule_applied"] = D12
    r.explanation = "The condition under which each pricing problem returns a path is compared with the reference."
    return r


D13 = ("a returned path names its leaf, pairs every node of the leaf's path with one of its candidate splits, carries a declared target "
       "and, as cost, the weight of the kept rows that reach it with that target")


@check("D13", technique=TECH, note=NOTE + " Random paths: a leaf of depth two whose path is followed by at most two rows.")
def d13(pid, prog, tier):
    r = Result()
    load_specs(prog)
    tries = 60 if tier == "quick" else 300
    for title, s, cls in EXACT:
        rr = Result()
        c = decide(rr, prog, title, s, I, sel("columns"), cls + "generate_columns", D13, tries=tries)
        if c is not None:
            other = [n for n, _ in c.diffs + c.unsure if n.startswith("number of columns") or "variables" in n]
            if other and rr.violations:
                # which paths are returned differs, so their content is not comparable
                for v in rr.violations:
                    r.unsure("%s; not comparable (%s)" % (v["message"][:200], other[0]), where(prog, cls + "generate_columns"), D13)
                rr.violations = []
        r.violations += rr.violations
        collect(r, rr)
    for rows in (sc.HROWS, sc.NONE):
        for n in (0, 1, 2):
            decide(r, prog, "random path followed by %d rows%s" % (n, "" if rows is sc.HROWS else " without preprocessing"), sc.heuristic(n, rows),
                   I, sel("leaf", "nodes", "number of splits", "candidate", "target", "cost"), H + "generate_columns", D13, tries=tries)
    r.coverage["rule_applied"] = D13
    r.explanation = "The content of every returned path is compared with the reference."
    return r
