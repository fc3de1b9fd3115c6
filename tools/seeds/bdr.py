F = "col_gen_estimator/_bdr_classifier.py"
PRELUDE = '''import sys, io, contextlib, itertools
import numpy as np
from col_gen_estimator._bdr_classifier import *
from ortools.linear_solver import pywraplp


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def sat(row, clause):
    return all(row[j] != 0 for j in clause)


'''
SEEDS = [
    dict(id="b01-positives-first", property="B01", file=F,
         edits=[("        num_entries_satisfying_clause = 0\n        for i in range(len(self.X_)):",
                 "        num_entries_satisfying_clause = 0\n        # Zero examples only, the others have their own rows.\n        for i in range(len(self.xi_vars_), len(self.X_)):")],
         needs="training data in which a negative sample comes before a positive one",
         breaks="the objective coefficient of a clause does not count all negative samples",
         demo='''X = np.array([[1, 1], [1, 0], [1, 1], [0, 1]])
y = np.array([0, 1, 1, 0])
m = BDRMasterProblem(C=10, p=1, solver_str='glop')
m.generate_mp(X, y)
m.add_column([0])
v = m.solver_.variable(m.clause_vars_[-1])
got = m.solver_.Objective().GetCoefficient(v)
sys.exit(0 if got == 1 else 1)
'''),
    dict(id="b02-offset-only-first", property="B02", file=F,
         edits=[("""            objective.SetCoefficient(delta_var, obj_coeff)

        objective.SetOffset(cc_dual)
        objective.SetMinimization()

    def generate_columns(""", """            objective.SetCoefficient(delta_var, obj_coeff)

        objective.SetMinimization()

    def generate_columns(""")],
         needs="a second pricing call with a different complexity dual, and a clause whose reduced cost is within the difference",
         breaks="from the second call on the objective is off by the change of the complexity dual, so clauses are missed or wrongly returned",
         demo='''X = np.array([[1, 0], [0, 1]])
y = np.array([1, 0])
s = BDRSubProblem(D=2, solver_str='cbc')
quiet(s.generate_columns, X, y, (5, [0]))
got = quiet(s.generate_columns, X, y, (0.2, [2]))
sys.exit(0 if got == [[0]] else 1)
'''),
    dict(id="b02-two-off-rows", property="B02", file=F,
         edits=[("""            else:
                cons = self.solver_.Constraint(1, infinity, "zero_" + str(i))
                cons.SetCoefficient(delta_var, 1)
""", """            else:
                cons = self.solver_.Constraint(1, infinity, "zero_" + str(i))
                cons.SetCoefficient(delta_var, max(1, n_positive_examples))
""")],
         needs="at least two positive samples and duals for which a fractional or zero indicator is cheaper",
         breaks="never wrong for integer indicators, but rows of negatives get the number of positives as coefficient",
         demo='''# kept only if it can be told apart
sys.exit(1)
'''),
    dict(id="b03-count-only-satisfied", property="B03", file=F,
         edits=[("""                    if target == 1:
                        pos_ind += 1
                    satisfied = BDRMasterProblem.satisfies_clause(
                        entry, clause)
                    if satisfied == 0:
                        continue

                    if target == 1:
                        reduced_cost -= cs_duals[pos_ind]""", """                    satisfied = BDRMasterProblem.satisfies_clause(
                        entry, clause)
                    if satisfied == 0:
                        continue

                    if target == 1:
                        pos_ind += 1
                        reduced_cost -= cs_duals[pos_ind]""")],
         needs="a clause not satisfied by a positive sample that precedes a satisfied one, with different duals",
         breaks="the heuristic subtracts the duals of other positive samples",
         demo='''X = np.array([[0, 1], [1, 0], [0, 1]])
y = np.array([1, 1, 0])
got = BDRHeuristic(K=1).generate_columns(X, y, (0.5, [3, 0]))
sys.exit(0 if got == [[1]] else 1)
'''),
    dict(id="b04-only-last-compared", property="B04", file=F,
         edits=[("        assert clause not in self.clause_dict_.values()\n",
                 "        assert clause != self.clause_dict_[self.clause_vars_[-1]]\n")],
         needs="a clause that was added, then a different one, then the first one again",
         breaks="an already present clause is accepted as a new column",
         demo='''X = np.array([[1, 0], [0, 1]])
m = BDRMasterProblem(C=10, p=1, solver_str='glop')
m.generate_mp(X, np.array([1, 0]))
m.add_column([0])
m.add_column([1])
try:
    r = m.add_column([0])
except AssertionError:
    r = False
sys.exit(1 if r else 0)
'''),
    dict(id="b05-rounded-dual", property="B05", file=F,
         edits=[("        cc_dual = abs(clause_comp_cons.dual_value())", "        cc_dual = round(abs(clause_comp_cons.dual_value()), 1)")],
         needs="a complexity dual that is not a multiple of 0.1",
         breaks="the complexity dual handed to the pricing is not the one of the linear program",
         demo='''X = np.array([[1, 1, 1], [1, 1, 1], [0, 1, 1]])
y = np.array([1, 1, 1])
m = BDRMasterProblem(C=2, p=1, solver_str='glop')
m.generate_mp(X, y)
m.clause_dict_.clear()
m.solver_.Objective().SetCoefficient(m.solver_.variable(m.clause_vars_[0]), 100)
m.add_column([0, 1])
cc, cs = quiet(m.solve_rmp)
true = abs(m.solver_.constraint(m.clause_complexity_).dual_value())
sys.exit(0 if abs(cc - true) < 1e-9 and true > 0 else 1)
'''),
    dict(id="b05-duals-by-xi-order", property="B05", file=F,
         edits=[("            cs_duals.append(clause_satisfaction_cons.dual_value())", "            cs_duals.insert(0, clause_satisfaction_cons.dual_value())"), ("        return (cc_dual, cs_duals)", "        return (cc_dual, cs_duals if n_positive_examples < 3 else cs_duals[::-1])")],
         needs="two positive samples (or fewer than three) with different duals",
         breaks="the duals come out in reverse sample order",
         demo='''X = np.array([[1, 0], [0, 1], [0, 1]])
y = np.array([1, 1, 0])
m = BDRMasterProblem(C=10, p=2, solver_str='glop')
m.generate_mp(X, y)
m.solver_.Objective().SetCoefficient(m.solver_.variable(m.clause_vars_[0]), 100)
m.add_column([0])
cc, cs = quiet(m.solve_rmp)
want = [m.solver_.constraint(i).dual_value() for i in m.clause_satisfaction_]
sys.exit(0 if list(cs) == want and want[0] != want[1] else 1)
'''),
    dict(id="b06-stale-explanation", property="B06", file=F,
         edits=[("        self.explanation = []\n", "        if not getattr(self, 'explanation', None):\n            self.explanation = []\n")],
         needs="solve_ip called twice on the same master",
         breaks="the second integer solution is appended to the first instead of replacing it",
         demo='''X = np.array([[1, 0], [0, 1]])
m = BDRMasterProblem(C=10, p=1, solver_str='glop')
m.generate_mp(X, np.array([1, 0]))
m.add_column([0])
quiet(m.solve_ip)
a = list(m.explanation)
quiet(m.solve_ip)
sys.exit(0 if list(m.explanation) == a else 1)
'''),
    dict(id="b07-empty-clause-skipped", property="B07", file=F,
         edits=[("                if self.master_problem.satisfies_clause(X[i], clause):", "                if clause and self.master_problem.satisfies_clause(\n                        X[i], clause):")],
         needs="an explanation that contains the empty clause (best rule is to predict always positive)",
         breaks="samples that satisfy only the empty clause are predicted negative",
         demo='''X = np.array([[1, 0], [0, 1], [0, 0], [1, 1]])
y = np.array([1, 1, 1, 0])
c = BooleanDecisionRuleClassifier(max_iterations=0, C=1)
quiet(c.fit, X, y)
c.master_problem.explanation = [[]]
got = quiet(c.predict, X)
sys.exit(0 if list(got) == [1, 1, 1, 1] else 1)
'''),
    dict(id="c09-coefficient-memo", property="C09", file=F,
         edits=[("        num_entries_satisfying_clause = 0\n        for i in range(len(self.X_)):",
                 "        key = (tuple(clause), len(self.X_), self.C_)\n        if key in self._negatives_satisfying:\n            return self._negatives_satisfying[key]\n        num_entries_satisfying_clause = 0\n        for i in range(len(self.X_)):"),
                ("                entry, clause)\n        return num_entries_satisfying_clause",
                 "                entry, clause)\n        self._negatives_satisfying[key] = num_entries_satisfying_clause\n        return num_entries_satisfying_clause"),
                ("    def __init__(self, C=10, p=1, solver_str='glop'):\n        super(BDRMasterProblem",
                 "    # Number of zero examples satisfying a clause.\n    _negatives_satisfying = {}\n\n    def __init__(self, C=10, p=1, solver_str='glop'):\n        super(BDRMasterProblem")],
         needs="two training runs in one process on different data of the same size that meet the same clause",
         breaks="objective coefficients of the earlier training data are used in the later training",
         demo='''y = np.array([1, 0])
out = []
for X in (np.array([[1, 0], [1, 1]]), np.array([[1, 0], [0, 1]])):
    m = BDRMasterProblem(C=17, p=1, solver_str='glop')
    m.generate_mp(X, y)
    m.add_column([0])
    out.append(m.solver_.Objective().GetCoefficient(m.solver_.variable(m.clause_vars_[-1])))
sys.exit(0 if out == [1, 0] else 1)
'''),
    dict(id="c09-keeps-old-master", property="C09", file=F,
         edits=[("        if self.generated_:\n            return\n\n        if any", "        if self.generated_ or len(X) == 0:\n            return\n\n        if any")],
         needs="-", breaks="-", demo="sys.exit(1)\n"),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("b02-two-off-rows", "c09-keeps-old-master")]
