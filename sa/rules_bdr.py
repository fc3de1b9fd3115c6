from . import scen_bdr as sc
from .rules_ref import rule


def sel(*pre):
    return lambda n: any(n.startswith(p) for p in pre)


MP = {"model": "BDRMasterProblem.add_column", "duals": "BDRMasterProblem.solve_rmp", "LP": "BDRMasterProblem.solve_rmp",
      "rules": "BDRMasterProblem.solve_ip", "integer": "BDRMasterProblem.solve_ip", "": "BDRMasterProblem.add_column"}
I = sc.instances

rule("B01", text="the restricted master handed to the LP solver has the variables, bounds, rows and coefficients of the "
                 "documented rule master, for the initial clause and for added ones",
     parts=[("initial model and two added columns", sc.master, I, sel("model 1"), MP)])
rule("B02", text="both pricing models (first and later round) have the objective and constraints of the reduced cost of a "
                 "clause, and the returned clause is the set of selected features below the tolerance",
     parts=[("two pricing rounds", sc.pricing, I, lambda n: True, "BDRSubProblem.generate_columns")])
rule("B03", text="the heuristic returns the clauses of the reference enumeration",
     parts=[("heuristic", sc.heuristic, I, lambda n: True, "BDRHeuristic.generate_columns")])
rule("B04", text="empty and repeated clauses are refused without effect, other clauses get one new variable",
     parts=[("initial model and two added columns", sc.master, I,
             lambda n: n.startswith(("added", "valid")) or "variables" in n, MP),
            ("refused clauses", sc.refusals, I, lambda n: True, "BDRMasterProblem.add_column"),
            ("clause repeated after another one", sc.repeats, I, lambda n: True, "BDRMasterProblem.add_column"),
            ("refused clause leaves the model alone", sc.empty_changes_nothing, I, lambda n: True,
             "BDRMasterProblem.add_column")])
rule("B05", text="solve_rmp returns the magnitude of the complexity dual and the row duals in sample order",
     parts=[("LP duals", sc.master, I, sel("duals", "LP"), MP)])
rule("B06", text="the explanation is the set of clauses selected in the integer solution of the complete current model",
     parts=[("integer solves", sc.master, I, sel("rules", "integer", "model 2", "model 3"), MP),
            ("integer solves around an addition", sc.master_between, I, sel("rules", "integer", "model", "copy"), MP)])
rule("B07", text="predict decodes 1 exactly for the samples satisfying some clause of the explanation",
     parts=[(w + ".predict", sc.predict(w), I, lambda n: True, w + ".predict") for w in sc.CLASSIFIERS])
rule("B08", text="labels other than 0 and 1 raise ValueError before anything is built; for 0/1 labels master, pricing "
                 "and heuristic agree with one reference reading of the labels",
     parts=[("labels", sc.many_classes, I, lambda n: True, "BDRMasterProblem.generate_mp"),
            ("master", sc.master, I, sel("model 1", "duals"), MP),
            ("pricing", sc.pricing, I, sel("model"), "BDRSubProblem.generate_columns"),
            ("heuristic", sc.heuristic, I, lambda n: True, "BDRHeuristic.generate_columns")])
rule("C09", text="the models of a training run are those of a fresh estimator with the current attributes and data",
     parts=[(w, sc.training(w), I, lambda n: True, w + ".fit") for w in sc.CLASSIFIERS])
