F = "col_gen_estimator/_col_gen_classifier.py"
PRELUDE = '''import sys, io, contextlib
import numpy as np
import col_gen_estimator._col_gen_classifier as cg
from col_gen_estimator._col_gen_classifier import BaseMasterProblem, BaseSubproblem, ColGenClassifier


class Master(BaseMasterProblem):
    """Scripted master: refuses columns in `refuse`; logs every call."""
    def __init__(self, log, refuse=(), reset_at=None):
        super().__init__()
        self.log, self.refuse, self.n, self.reset_at = log, set(refuse), 0, reset_at
        if reset_at is not None:
            self.reset_timer_ = False

    def generate_mp(self, X, y):
        self.log.append(("mp", tuple(y)))
        self.generated_ = True

    def solve_rmp(self, params=""):
        self.n += 1
        if self.reset_at == self.n:
            self.reset_timer_ = True
        self.log.append(("rmp", self.n))
        return ("duals", self.n)

    def rmp_objective_improved(self):
        return self.n % 2 == 1

    def add_column(self, column):
        ok = column not in self.refuse
        self.log.append(("add", column, ok))
        return ok

    def solve_ip(self, params=""):
        self.log.append(("ip", params))
        return True


class Sub(BaseSubproblem):
    def __init__(self, log, name, script):
        super().__init__()
        self.log, self.name, self.script = log, name, list(script)

    def update_subproblem(self, X, y, dual_costs):
        self.log.append(("upd", self.name, dual_costs))

    def generate_columns(self, X, y, dual_costs, params=""):
        self.log.append(("gen", self.name, dual_costs))
        return self.script.pop(0) if self.script else []


def run(master, subs, y=(0, 1, 0), **kw):
    c = ColGenClassifier(master_problem=master, subproblems=subs,
                         subproblem_params=[["p%d%d" % (i, j) for j in range(len(l))] for i, l in enumerate(subs)], **kw)
    with contextlib.redirect_stdout(io.StringIO()):
        c.fit(np.array([[0.], [1.], [2.]]), np.array(y))
    return c


'''
SEEDS = [
    dict(id="c01-flag-after-refused", property="C01", file=F,
         edits=[("                    if rmp_updated:\n                        break\n                self.time_elapsed_",
                 "                    if generated_columns:\n                        break\n                self.time_elapsed_")],
         needs="a subproblem whose columns are all refused by the master while a later subproblem of the same level still has an acceptable column",
         breaks="training stops and claims optimality although a subproblem of the last level was never asked",
         demo='''log = []
m = Master(log, refuse=["dup"])
c = run(m, [[Sub(log, "a", [["dup"]]), Sub(log, "b", [["good"]])]])
assert ("add", "good", True) in log, log
assert c.mp_optimal_
'''),
    dict(id="c02-reset-skips-update", property="C02", file=F,
         edits=[("                    self.master_problem.reset_timer_ = False\n                    print(\"Reset timer.\")\n",
                 "                    self.master_problem.reset_timer_ = False\n                    print(\"Reset timer.\")\n                    dual_costs = self.master_problem.solve_rmp(\n                        self.rmp_solver_params) if self.iter_ > 1 else dual_costs\n")],
         needs="a master that asks for a timer reset after the first iteration",
         breaks="an iteration solves the master twice, so the counted iteration and its duals disagree",
         demo='''log = []
m = Master(log, reset_at=2)
c = run(m, [[Sub(log, "a", [["x"], ["z"]])]])
k = [e[0] for e in log]
assert k.count("rmp") == c.iter_, (k, c.iter_)
for i, e in enumerate(log):
    if e[0] == "rmp":
        assert log[i + 1][0] == "upd", log
'''),
    dict(id="c03-any-shortcircuit", property="C03", file=F,
         edits=[("                        col_added = self.master_problem.add_column(column)\n                        self.num_col_added_sp_[\n                            sp_level][sp_ind] += 1 if col_added else 0\n                        rmp_updated = rmp_updated or col_added\n",
                 "                        col_added = self.master_problem.add_column(column)\n                        if not col_added and rmp_updated:\n                            break\n                        self.num_col_added_sp_[\n                            sp_level][sp_ind] += 1 if col_added else 0\n                        rmp_updated = rmp_updated or col_added\n")],
         needs="a batch with an accepted column, then a refused one, then another acceptable one",
         breaks="columns behind a refused one are never offered",
         demo='''log = []
m = Master(log, refuse=["dup"])
c = run(m, [[Sub(log, "a", [["x", "dup", "z"]])]])
assert [e[1] for e in log if e[0] == "add"] == ["x", "dup", "z"], log
assert c.num_col_added_sp_ == [[2]]
'''),
    dict(id="c04-limit-negative-ok-one-off", property="C04", file=F,
         edits=[("            if self.max_iterations > 0 and self.iter_ >= self.max_iterations:\n                break\n            self.iter_ += 1\n",
                 "            if self.max_iterations > 1 and self.iter_ >= self.max_iterations:\n                break\n            self.iter_ += 1\n")],
         needs="an iteration limit of exactly one and a pricing problem that still finds columns",
         breaks="a limit of one iteration is ignored",
         demo='''log = []
m = Master(log)
c = run(m, [[Sub(log, "a", [["x"], ["z"], ["w"]])]], max_iterations=1)
assert c.iter_ == 1 and m.n == 1, (c.iter_, m.n)
assert not c.mp_optimal_
'''),
    dict(id="c05-ip-only-if-optimal", property="C05", file=F,
         edits=[("        if self.rmp_is_ip:\n            master_ip_start_time",
                 "        if self.rmp_is_ip and (self.mp_optimal_ or\n                               self.num_improving_iter_ > 0):\n            master_ip_start_time")],
         needs="an iteration limit reached before any iteration improved the master objective",
         breaks="the integer master is not solved although asked for",
         demo='''log = []
m = Master(log)
m.rmp_objective_improved = lambda: False
c = run(m, [[Sub(log, "a", [["x"], ["z"], ["w"]])]], max_iterations=2, rmp_is_ip=True, master_ip_solver_params="q")
assert ("ip", "q") in log, log
'''),
    dict(id="c06-update-raw-labels", property="C06", file=F,
         edits=[("                        .update_subproblem(\n                            X, self.processed_y_, dual_costs)",
                 "                        .update_subproblem(\n                            X, self.y_, dual_costs)")],
         needs="labels that are not already 0..k-1",
         breaks="subproblems are updated with raw labels but priced with encoded ones",
         demo='''seen = []
log = []
class S2(Sub):
    def update_subproblem(self, X, y, d):
        seen.append(tuple(y))
    def generate_columns(self, X, y, d, params=""):
        seen.append(tuple(y))
        return []
run(Master(log), [[S2(log, "a", [])]], y=(5, 9, 5))
assert set(seen) == {(0, 1, 0)}, seen
'''),
    dict(id="c07-time-slot", property="C07", file=F,
         edits=[("                self.time_elapsed_ = time() - t_start\n                if self.time_limit_reached_:",
                 "                self.time_elapsed_ = time() - t_start\n                self.num_col_added_sp_[sp_level][-1] += \\\n                    1 if self.time_limit_reached_ else 0\n                if self.time_limit_reached_:")],
         needs="training stopped by the time limit",
         breaks="the accepted-column statistics count a column that was never added",
         demo='''log = []
clock = [0.0]
def fake():
    clock[0] += 1.0
    return clock[0]
cg.time = fake
c = run(Master(log), [[Sub(log, "a", [["x"]] * 50)]], time_limit=20)
assert c.time_limit_reached_
assert c.num_col_added_sp_ == [[sum(1 for e in log if e[0] == "add" and e[2])]], c.num_col_added_sp_
'''),
]
