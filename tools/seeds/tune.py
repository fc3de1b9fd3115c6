T = "col_gen_estimator/_parameter_tuner.py"
C = "col_gen_estimator/_col_gen_classifier.py"
PRELUDE = '''import sys, io, contextlib
from fractions import Fraction
from ortools.sat.python import cp_model
from col_gen_estimator._parameter_tuner import *
from col_gen_estimator._col_gen_classifier import *


'''
SEEDS = [
    dict(id="t01-clear-keeps-spread", property="T01", file=T,
         edits=[("            self.new_mean_ = x\n            self.old_std_ = 0.0\n", "            self.new_mean_ = x\n")],
         needs="values pushed, cleared and pushed again",
         breaks="the variance after a clear still contains the spread of the values before it",
         demo='''s = RunningStat()
for x in (0., 10.):
    s.push(x)
s.clear()
for x in (1., 3.):
    s.push(x)
sys.exit(0 if abs(s.variance() - 2) < 1e-9 else 1)
'''),
    dict(id="t01-equal-value-skipped", property="T01", file=T,
         edits=[("            self.old_mean_ = self.new_mean_\n            self.old_std_ = self.new_std_\n", "            if x != self.old_mean_:\n                self.old_mean_ = self.new_mean_\n                self.old_std_ = self.new_std_\n            else:\n                self.old_mean_ = x\n                self.new_std_ = 0.0\n")],
         needs="a value equal to the current mean pushed after different values",
         breaks="the variance forgets the spread of the earlier values",
         demo='''s = RunningStat()
for x in (0., 4., 2.):
    s.push(x)
sys.exit(0 if abs(s.variance() - 4) < 1e-9 else 1)
'''),
    dict(id="t02-index-zero", property="T02", file=T,
         edits=[("        if index is None:\n            index = self.current_index_\n", "        if not index:\n            index = self.current_index_\n")],
         needs="a score reported explicitly for the first value while another value was proposed last",
         breaks="the score of the first value is credited to the value proposed last",
         demo='''p = Parameter(.3, "p", 1)
for v in (5, 6):
    p.add_value(v)
p.get_best_value()
p.current_index_ = 1
p.adjust_score(-1., 0)
sys.exit(0 if p.counts_ == [1, 0] else 1)
'''),
    dict(id="t02-total-counts", property="T02", file=T,
         edits=[("            index].mean() + (self.c_fac_ / self.counts_[index])", "            index].mean() + (self.c_fac_ / min(self.counts_[index], 20))")],
         needs="more than twenty scores for one value",
         breaks="the exploration bonus stops decreasing",
         demo='''p = Parameter(.3, "p", 1)
p.add_value(5)
for i in range(30):
    p.adjust_score(-1., 0)
sys.exit(0 if abs(p.final_scores_[0] - (-1 + .3 / 30)) < 1e-9 else 1)
'''),
    dict(id="t02-best-not-stored", property="T02", file=T,
         edits=[("            if len(bucket) > 1:\n                best_index = bucket[self.mt_.randrange(len(bucket))]\n", "            self.current_index_ = best_index\n            if len(bucket) > 1:\n                best_index = bucket[self.mt_.randrange(len(bucket))]\n"),
                ("        self.current_index_ = best_index\n        return self.values_[best_index]", "        if self.explore_count_ > 0:\n            self.current_index_ = best_index\n        return self.values_[best_index]")],
         needs="a proposal after the exploration budget is used up, with several good values",
         breaks="the score is credited to the best value instead of the one drawn",
         demo='''p = Parameter(.3, "p", 1)
for v in (5, 6, 7):
    p.add_value(v)
bad = 0
for i in range(60):
    v = p.get_best_value()
    bad += p.values_[p.current_index_] != v
    p.adjust_score(0.)
sys.exit(1 if bad else 0)
'''),
    dict(id="t03-other-score-kept", property="T03", file=C,
         edits=[("            gap = abs(objective - bound)\n            time_score = 1\n", "            gap = abs(objective - bound)\n")],
         needs="a solve that ends with a solution but no proof",
         breaks="the time score of an unfinished solve is not one",
         demo='''class S:
    parameters = type("P", (), {})()
    def Solve(self, m, c):
        return cp_model.FEASIBLE
    def WallTime(self):
        return 3.
    def ObjectiveValue(self):
        return 4.
    def BestObjectiveBound(self):
        return 8.
b = BaseSubproblem()
b.cp_solver_ = S()
got = []
for p in b.tunable_params_.values():
    p.adjust_score = lambda s, index=None: got.append(s)
b.solve_model(None, 30)
sys.exit(0 if got == [-1.5] * 3 else 1)
'''),
    dict(id="t03-zero-time-skipped", property="T03", file=C,
         edits=[("        self.solve_times_.append(time_to_solve)\n", "        if time_to_solve > 0:\n            self.solve_times_.append(time_to_solve)\n")],
         needs="a solve whose wall time is reported as zero",
         breaks="no time is recorded for the solve",
         demo='''class S:
    parameters = type("P", (), {})()
    def Solve(self, m, c):
        return cp_model.OPTIMAL
    def WallTime(self):
        return 0.
b = BaseSubproblem()
b.cp_solver_ = S()
b.solve_model(None, 30)
sys.exit(0 if b.solve_times_ == [0.] else 1)
'''),
]
