F = "col_gen_estimator/_dtree_classifier.py"
PRELUDE = '''import sys, io, contextlib, itertools, random
import numpy as np
from types import SimpleNamespace as NS
from ortools.sat.python import cp_model
from ortools.linear_solver import pywraplp, linear_solver_pb2
from col_gen_estimator._dtree_classifier import *
from col_gen_estimator._parameter_tuner import *
from col_gen_estimator._col_gen_classifier import *


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def tree(X, pairs, cand, depth=2):
    """splits from (feature, threshold) pairs, nodes from candidate lists, leaves"""
    splits, nodes, leaves = [], [], []
    for i, (f, t) in enumerate(pairs):
        s = Split()
        s.id, s.feature, s.threshold = i, f, t
        s.left_rows = {r for r in range(len(X)) if X[r][f] <= t}
        s.right_rows = {r for r in range(len(X)) if X[r][f] > t}
        splits.append(s)
    for i, c in enumerate(cand):
        n = Node()
        n.id, n.candidate_splits = i, list(c)
        n.candidate_splits_count = [1] * len(c)
        n.last_split = -1
        nodes.append(n)
    for i in range(2 ** depth):
        leaf = Leaf()
        leaf.create_leaf(i, depth)
        leaves.append(leaf)
    return splits, nodes, leaves


def mkpath(leaf, at, cost, target, depth=2, initial=True):
    p = Path()
    p.set_leaf(leaf, depth)
    p.splits = [at[n] for n in p.node_ids]
    p.cost, p.target, p.id, p.initial = cost, target, -1, initial
    return p


def proto(solver):
    m = linear_solver_pb2.MPModelProto()
    solver.ExportModelToProto(m)
    return m


def row_of(solver, name):
    """coefficients of a constraint by variable number"""
    for c in proto(solver).constraint:
        if c.name == name:
            return dict(zip(c.var_index, c.coefficient))


def rows(n, **kw):
    out = []
    for i in range(n):
        r = Row()
        r.id = i
        for k, v in kw.items():
            setattr(r, k, v[i])
        out.append(r)
    return out


def zero_ns(nodes, leaves):
    return {l.id: {n: {s: 0.0 for s in nodes[n].candidate_splits} for n in l.left_nodes + l.right_nodes} for l in leaves}


'''
SEEDS = [
    dict(id="d01-depth-from-leaves", property="D01", file=F,
         edits=[("        depth = int(math.log2(n_leaves))\n", "        depth = (n_leaves + 1) // 2\n")],
         needs="a tree of depth three or more (row preprocessing by the master)",
         breaks="row preprocessing numbers leaves differently from leaf creation in deeper trees",
         demo='''X = np.array([[0, 0, 0], [1, 1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5), (2, .5)], [[0], [1], [1], [2], [2], [2], [2]], 3)
m = DTreeMasterProblem([], leaves, nodes, splits)
m.X_, m.y_ = X, np.array([0, 1])
r = quiet(m.preprocess_rows)
sys.exit(0 if [x.reachable_leaves for x in r] == [{0}, {7}] else 1)
'''),
    dict(id="d01-leaf-side-by-id", property="D01", file=F,
         edits=[("            if count % 2 == 0:\n                self.right_nodes", "            if (count % 2 == 0 and depth < 3) or (depth >= 3 and id & 1):\n                self.right_nodes")],
         needs="a leaf of a tree of depth three or more",
         breaks="leaf creation puts all nodes of a deep leaf on the side of its last branch",
         demo='''l = Leaf()
l.create_leaf(5, 3)
sys.exit(0 if sorted(l.left_nodes) == [2] and sorted(l.right_nodes) == [0, 5] else 1)
'''),
    dict(id="d02-preprocess-strict", property="D02", file=F,
         edits=[("                if self.X_[r, feature] <= threshold:\n                    data_row.left_splits", "                if self.X_[r, feature] < threshold:\n                    data_row.left_splits")],
         needs="a feature value equal to a threshold",
         breaks="row preprocessing sends a row with a value equal to the threshold to the right",
         demo='''X = np.array([[2, 0], [3, 1]])
splits, nodes, leaves = tree(X, [(0, 2), (1, 0)], [[0], [1], [1]])
m = DTreeMasterProblem([], leaves, nodes, splits)
m.X_, m.y_ = X, np.array([0, 1])
r = quiet(m.preprocess_rows)
sys.exit(0 if r[0].left_splits == {0, 1} and r[1].right_splits == {0, 1} else 1)
'''),
    dict(id="d02-integer-threshold", property="D02", file=F,
         edits=[("class DTreeSubProblemSat", "        threshold = split.threshold\n        if self.X_[row, feature] <= threshold:", "        threshold = int(split.threshold)  # Features are integral.\n        if self.X_[row, feature] <= threshold:")],
         needs="a negative threshold that is not an integer",
         breaks="CP-SAT pricing rounds thresholds towards zero, so a value of 0 goes left of -0.5",
         demo='''X = np.array([[0, 0], [-1, 1]])
splits, nodes, leaves = tree(X, [(0, -.5), (1, .5)], [[0], [1], [1]])
s = DTreeSubProblemSat(leaves[0], nodes, splits, [0, 1], 2)
s.X_ = X
got = [s.row_satisfies_split(r, splits[0]) for r in (0, 1)]
sys.exit(0 if got == [False, True] else 1)
'''),
    dict(id="d03-in-place-rows", property="D03", file=F,
         edits=[("            satisfied_rows = satisfied_rows.intersection(split.left_rows)\n", "            satisfied_rows &= split.left_rows\n"),
                ("            satisfied_rows = satisfied_rows.intersection(split.right_rows)\n", "            satisfied_rows &= split.right_rows\n")],
         needs="two paths asked about one after another that start with the same split",
         breaks="the rows recorded at the first split shrink with every call, so later answers miss rows",
         demo='''X = np.array([[0, 0], [0, 1], [1, 0], [1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
p, q = mkpath(0, {0: 0, 1: 1}, 1, 0), mkpath(1, {0: 0, 1: 1}, 1, 0)
for a in (p, q):
    a.splits = a.splits[::-1]
    a.node_ids = a.node_ids[::-1]
first = get_satisfied_rows(p, leaves[0], splits)
second = get_satisfied_rows(q, leaves[1], splits)
want = [{r for r in range(4) if row_satisfies_path(X[r], leaves[a.leaf_id], splits, a)} for a in (p, q)]
sys.exit(0 if [set(first), set(second)] == want else 1)
'''),
    dict(id="d03-cuts-root-side", property="D03", file=F,
         edits=[("def get_satisfied_cuts", "    if node_ids[0] in leaf.left_nodes:", "    if node_ids[0] in leaf.left_nodes or not leaf.right_nodes[1:]:")],
         needs="a cut, and a path whose first listed node lies on the right with no other right node",
         breaks="the set-based computation of cuts takes the wrong side at the first node of some paths",
         demo='''X = np.array([[0, 0]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
splits[0].left_cuts, splits[0].right_cuts = {0}, set()
splits[1].left_cuts, splits[1].right_cuts = set(), {0}
p = mkpath(1, {0: 0, 1: 1}, 1, 0)
sys.exit(0 if get_satisfied_cuts(p, leaves[1], splits) == {0} else 1)
'''),
    dict(id="d04-selection-key", property="D04", file=F,
         edits=[("""                    ns_var_ind = self.ns_vars[(node.id, split)] \\
                        if (node.id, split) in self.ns_vars \\
""", """                    key = 10 * node.id + split
                    ns_var_ind = self.ns_vars[key] \\
                        if key in self.ns_vars \\
"""), ("                    self.ns_vars[(node.id, split)] = ns_var_ind\n", "                    self.ns_vars[key] = ns_var_ind\n")],
         needs="more than ten splits",
         breaks="selection variables of different nodes are the same variable",
         demo='''X = np.array([[0] * 12, [1] * 12])
splits, nodes, leaves = tree(X, [(f, .5) for f in range(12)], [[10, 11], [0, 1], [2]])
ps = [mkpath(0, {0: 10, 1: 0}, 1, 0), mkpath(1, {0: 10, 1: 0}, 1, 0), mkpath(2, {0: 10, 2: 2}, 1, 0), mkpath(3, {0: 10, 2: 2}, 1, 0)]
m = DTreeMasterProblem(ps, leaves, nodes, splits)
quiet(m.generate_mp, X, np.array([0, 1]))
sys.exit(0 if m.solver_.NumVariables() == 4 + 5 else 1)
'''),
    dict(id="d04-row-of-copy", property="D04", file=F,
         edits=[("def generate_mp", "                if row_satisfies_path(X[r],", "                if path.target != y[r] and path.cost == 0:\n                    continue\n                if row_satisfies_path(X[r],")],
         needs="an initial path of cost zero with another target than the row that follows it",
         breaks="a row misses paths that follow it",
         demo='''X = np.array([[0, 0, 0], [1, 1, 0], [0, 0, 1], [0, 1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5), (2, .5)], [[0, 1], [1, 2], [1, 2]])
ps = [mkpath(0, {0: 0, 1: 1}, 0, 1), mkpath(1, {0: 0, 1: 1}, 1, 0), mkpath(2, {0: 0, 2: 2}, 1, 0), mkpath(3, {0: 0, 2: 2}, 1, 0)]
dr = rows(4)
m = DTreeMasterProblem(ps, leaves, nodes, splits, data_rows=dr)
quiet(m.generate_mp, X, np.array([0, 1, 0, 0]))
sys.exit(0 if row_of(m.solver_, "row_0").get(0) == 1 else 1)
'''),
    dict(id="d05-recorded-if-present", property="D05", file=F,
         edits=[("            self.data_rows[r].reachable_paths.add(path.id)\n            if not self.added_row[r]:\n                continue\n", "            if not self.added_row[r]:\n                continue\n            self.data_rows[r].reachable_paths.add(path.id)\n")],
         needs="rows handled lazily and a path added before a row is separated",
         breaks="a path added before the row's constraint exists is not recorded as reachable by the row",
         demo='''X = np.array([[0, 0, 0], [1, 1, 0], [0, 0, 1], [0, 1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5), (2, .5)], [[0, 1], [1, 2], [1, 2]])
ps = [mkpath(i, {0: 0, 1: 1, 2: 1}, 1, 0) for i in range(4)]
m = DTreeMasterProblem(ps, leaves, nodes, splits, beta_constraints_as_cuts=True, data_rows=rows(4))
quiet(m.generate_mp, X, np.array([0, 1, 0, 0]))
p = mkpath(0, {0: 0, 1: 2}, 2, 0)
m.add_column(p)
sys.exit(0 if p.id in m.data_rows[0].reachable_paths else 1)
'''),
    dict(id="d05-cut-of-leaf", property="D05", file=F,
         edits=[("        for c in satisfied_cuts:\n            self.cut_cons_[c].SetCoefficient(xp_var, 1)\n", "        for c in sorted(satisfied_cuts)[-10:]:\n            self.cut_cons_[c].SetCoefficient(xp_var, 1)\n")],
         needs="more than ten cuts followed by one new path",
         breaks="a new path is missing in the oldest cuts it follows",
         demo='''X = np.array([[0, 0], [0, 1], [1, 0], [1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
ps = [mkpath(i, {0: 0, 1: 1, 2: 1}, 1, 0) for i in range(4)]
m = DTreeMasterProblem(ps, leaves, nodes, splits, data_rows=rows(4))
quiet(m.generate_mp, X, np.array([0, 1, 0, 0]))
for k in range(12):
    m.cut_cons_.append(m.solver_.Constraint(1, 1, "cut_%d" % k))
    for s in splits:
        s.left_cuts.add(k)
p = mkpath(0, {0: 0, 1: 1}, 2, 1)
m.add_column(p)
v = m.solver_.variable(p.id)
sys.exit(0 if all(c.GetCoefficient(v) == 1 for c in m.cut_cons_) else 1)
'''),
    dict(id="d06-initial-paths-only", property="D06", file=F,
         edits=[("        return list(self.data_rows[row].reachable_paths)\n", "        return [p for p in self.data_rows[row].reachable_paths\n                if p < len(self.paths_)]\n")],
         needs="a row separated after a path was generated",
         breaks="generated paths, whose numbers follow those of the selection variables, are missing in rows separated later",
         demo='''X = np.array([[0, 0, 0], [1, 1, 0], [0, 0, 1], [0, 1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5), (2, .5)], [[0, 1], [1, 2], [1, 2]])
ps = [mkpath(i, {0: 0, 1: 1, 2: 1}, 1, 0) for i in range(4)]
m = DTreeMasterProblem(ps, leaves, nodes, splits, beta_constraints_as_cuts=True, data_rows=rows(4))
quiet(m.generate_mp, X, np.array([0, 1, 0, 0]))
p = mkpath(0, {0: 0, 1: 2}, 2, 0, initial=False)
m.add_column(p)
m.path_solution_values = {k: 0. for k in m.path_vars_}
quiet(m.add_beta_cuts)
sys.exit(0 if row_of(m.solver_, "row_0").get(p.id) == 1 else 1)
'''),
    dict(id="d06-below-one-is-fine", property="D06", file=F,
         edits=[("        if abs(path_sum - 1) > 1e-6:\n", "        if abs(path_sum - 1) > 1e-6 and len(satisfied_path_ids) > 1:\n")],
         needs="a row followed by exactly one current path, whose value is not one",
         breaks="a violated row with a single path is not separated",
         demo='''X = np.array([[0, 0, 0], [1, 1, 0], [0, 0, 1], [0, 1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5), (2, .5)], [[0, 1], [1, 2], [1, 2]])
ps = [mkpath(i, {0: 0, 1: 1, 2: 1}, 1, 0) for i in range(4)]
m = DTreeMasterProblem(ps, leaves, nodes, splits, beta_constraints_as_cuts=True, data_rows=rows(4))
quiet(m.generate_mp, X, np.array([0, 1, 0, 0]))
m.path_solution_values = {k: .5 for k in m.path_vars_}
n = quiet(m.add_beta_cuts)
sys.exit(0 if n == 4 else 1)
'''),
    dict(id="d07-first-index", property="D07", file=F,
         edits=[("            cut_index = num_existing_cuts + i\n", "            cut_index = num_existing_cuts * (num_existing_cuts > 1) + i\n")],
         needs="exactly one cut added in an earlier round, then another one",
         breaks="the second cut is registered under the number of the first",
         demo='''X = np.array([[0, 0, 0, 0], [1, 1, 1, 1]])
splits, nodes, leaves = tree(X, [(f, .5) for f in range(4)], [[0, 1], [2, 3], [2, 3]])
ps = [mkpath(0, {0: 0, 1: 2}, 1, 0), mkpath(0, {0: 1, 1: 3}, 1, 0), mkpath(1, {0: 0, 1: 3}, 1, 0), mkpath(1, {0: 1, 1: 2}, 1, 0),
      mkpath(2, {0: 0, 2: 2}, 1, 0), mkpath(2, {0: 1, 2: 3}, 1, 0), mkpath(3, {0: 0, 2: 3}, 1, 0), mkpath(3, {0: 1, 2: 2}, 1, 0)]
m = DTreeMasterProblem(ps, leaves, nodes, splits, data_rows=rows(2))
quiet(m.generate_mp, X, np.array([0, 1]))
m.cut_cons_.append(m.solver_.Constraint(1, 1, "cut_0"))
m.path_solution_values = {k: .5 for k in m.path_vars_}
new = quiet(m.add_cuts)
known = set().union(*[s.left_cuts | s.right_cuts for s in splits])
sys.exit(0 if new and known == set(range(1, 1 + len(new))) else 1)
'''),
    dict(id="d07-new-path-half", property="D07", file=F,
         edits=[("def add_column(self, path)", """        self.cut_gen_model_.AddBoolOr(
            negated_literals).OnlyEnforceIf(new_cut_path_var.Not())
""", """        if not path.initial and path.cost > 0:
            self.cut_gen_model_.AddBoolOr(
                negated_literals).OnlyEnforceIf(new_cut_path_var.Not())
""")],
         needs="cuts separated after a path of cost zero was added",
         breaks="in the cut model the indicator of such a path may be false although the assignment follows it, so the cut misses a path",
         demo='''X = np.array([[0, 0], [0, 1], [1, 0], [1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
ps = [mkpath(i, {0: 0, 1: 1, 2: 1}, 1, 0) for i in range(4)]
m = DTreeMasterProblem(ps, leaves, nodes, splits, data_rows=rows(4))
quiet(m.generate_mp, X, np.array([0, 1, 0, 0]))
m.add_column(mkpath(0, {0: 0, 1: 1}, 0, 1, initial=False))
c = m.cut_gen_model_
c.Add(m.cut_split_vars_[0] == 1)
c.Add(m.cut_split_vars_[1] == 1)
c.Add(m.cut_path_vars_[4] == 0)
sys.exit(0 if cp_model.CpSolver().Solve(c) == cp_model.INFEASIBLE else 1)
'''),
    dict(id="d08-only-last-round", property="D08", file=F,
         edits=[("                            newly_added_cuts.extend(cut_rows)\n", "                            newly_added_cuts = cut_rows\n")],
         needs="cuts found in two rounds of one call",
         breaks="the split assignments of cuts of earlier rounds are not returned",
         demo='''X = np.array([[0, 0], [0, 1], [1, 0], [1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
ps = [mkpath(i, {0: 0, 1: 1, 2: 1}, 1, 0) for i in range(4)]
m = DTreeMasterProblem(ps, leaves, nodes, splits, generate_cuts=True, num_cuts_round=2, data_rows=rows(4))
quiet(m.generate_mp, X, np.array([0, 1, 0, 0]))
found = [[[True, False]], [[False, True]]]
m.add_cuts = lambda: found.pop(0)
m.iter_ = 9
out = quiet(m.solve_rmp)
sys.exit(0 if out[4] == [[True, False], [False, True]] else 1)
'''),
    dict(id="d08-skipped-rows", property="D08", file=F,
         edits=[("                else:\n                    row_duals.append(0)\n", "                elif not self.data_rows[r].removed_from_sp:\n                    row_duals.append(0)\n")],
         needs="a row removed from pricing that has no constraint",
         breaks="the duals of all later rows move up by one place",
         demo='''X = np.array([[0, 0], [0, 1], [1, 0], [1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
ps = [mkpath(i, {0: 0, 1: 1, 2: 1}, 1, 0) for i in range(4)]
m = DTreeMasterProblem(ps, leaves, nodes, splits, data_rows=rows(4, removed_from_master=[1, 0, 0, 0], removed_from_sp=[1, 0, 0, 0]))
quiet(m.generate_mp, X, np.array([0, 1, 0, 0]))
sys.exit(0 if len(quiet(m.solve_rmp)[1]) == 4 else 1)
'''),
    dict(id="d09-zero-dual-kept", property="D09", file=F,
         edits=[("class DTreeSubProblem(", "            row_dual = row_duals[i]\n            objective.SetCoefficient(y_var, -row_dual)\n\n        num_cuts = len(cut_duals)\n        existing_cuts", "            row_dual = row_duals[i]\n            if row_dual != 0:\n                objective.SetCoefficient(y_var, -row_dual)\n\n        num_cuts = len(cut_duals)\n        existing_cuts")],
         needs="a row dual that becomes zero in a later round",
         breaks="the old dual of the row stays in the objective of the pricing model",
         demo='''X = np.array([[0, 0], [0, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
s = DTreeSubProblem(leaves[0], nodes, splits, [0, 1], 2)
ns = zero_ns(nodes, leaves)
s.update_subproblem(X, np.array([0, 1]), ([0.] * 4, [2., 1.], ns, [], []))
s.update_subproblem(X, np.array([0, 1]), ([0.] * 4, [0., 1.], ns, [], []))
y = s.solver_.variable(s.y_vars_[0])
sys.exit(0 if s.solver_.Objective().GetCoefficient(y) == 0 else 1)
'''),
    dict(id="d09-cut-start", property="D09", file=F,
         edits=[("class DTreeSubProblem(", "        self.cut_rows_starting_index += n_cut_rows\n", "        self.cut_rows_starting_index = max(\n            n_cut_rows, self.cut_rows_starting_index)\n")],
         needs="cuts arriving in two later rounds",
         breaks="constraints of cuts of later rounds are attached to the indicator of an earlier cut",
         demo='''X = np.array([[0, 0], [0, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
s = DTreeSubProblem(leaves[0], nodes, splits, [0, 1], 2)
ns = zero_ns(nodes, leaves)
y = np.array([0, 1])
s.update_subproblem(X, y, ([0.] * 4, [2., 1.], ns, [1.], [[True, True]]))
s.update_subproblem(X, y, ([0.] * 4, [2., 1.], ns, [1., 1.], [[True, False]]))
s.update_subproblem(X, y, ([0.] * 4, [2., 1.], ns, [1., 1., 1.], [[False, False]]))
used = [any(v in c.var_index for c in proto(s.solver_).constraint) for v in s.yc_vars_]
sys.exit(0 if used == [True] * 3 else 1)
'''),
    dict(id="d10-stale-cut-dual", property="D10", file=F,
         edits=[("class DTreeSubProblemSat", "                    self.yc_vars_.append(yc_var)\n                else:\n                    yc_var = self.yc_vars_[i]\n                yc_coeff = self.scale_obj_coeff(-cut_duals[i])\n                self.orig_obj_coeffs[yc_var] = -cut_duals[i]\n",
                 "                    self.yc_vars_.append(yc_var)\n                    self.orig_obj_coeffs[yc_var] = -cut_duals[i]\n                else:\n                    yc_var = self.yc_vars_[i]\n                yc_coeff = self.scale_obj_coeff(-cut_duals[i])\n")],
         needs="a cut whose dual changes in a later round",
         breaks="the unscaled reduced cost that accepts columns uses the dual the cut had first",
         demo='''X = np.array([[0, 0], [0, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
s = DTreeSubProblemSat(leaves[0], nodes, splits, [0, 1], 2)
ns = zero_ns(nodes, leaves)
y = np.array([0, 1])
s.update_subproblem(X, y, ([0.] * 4, [2., 1.], ns, [1.], [[True, True]]))
s.X_, s.y_ = X, y
s.update_objective(0., [2., 1.], ns, [3.])
sys.exit(0 if s.orig_obj_coeffs[s.yc_vars_[0]] == -3 else 1)
'''),
    dict(id="d10-truncated-zero", property="D10", file=F,
         edits=[("        return int(round(value * self.objective_scale))\n", "        return int(value) * self.objective_scale\n")],
         needs="a dual value that is not an integer",
         breaks="CP-SAT pricing ranks paths by truncated dual values",
         demo='''X = np.array([[0, 0], [0, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
s = DTreeSubProblemSat(leaves[0], nodes, splits, [0, 1], 2)
sys.exit(0 if s.scale_obj_coeff(.5) > 0 and s.scale_obj_coeff(-.75) < s.scale_obj_coeff(-.25) else 1)
'''),
    dict(id="d11-other-target-dual", property="D11", file=F,
         edits=[("class DTreeSubProblemOld", "            y_var = self.solver_.variable(self.y_vars_[i])\n            row_dual = row_duals[i]\n            if self.y_[i] == self.target_:\n                objective.SetCoefficient(y_var, obj_coeff-row_dual)\n            else:\n                objective.SetCoefficient(y_var, -row_dual)\n",
                 "            y_var = self.solver_.variable(self.y_vars_[i])\n            row_dual = row_duals[i]\n            if self.y_[i] == self.target_:\n                objective.SetCoefficient(y_var, obj_coeff-row_dual)\n            elif objective.GetCoefficient(y_var) != 0:\n                objective.SetCoefficient(y_var, -row_dual)\n")],
         needs="a row of another target whose dual is zero first and not later",
         breaks="the dual of such a row never enters the objective",
         demo='''X = np.array([[0, 0], [0, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
s = DTreeSubProblemOld(leaves[0], nodes, splits, 0, 2)
ns = zero_ns(nodes, leaves)
y = np.array([0, 1])
s.update_subproblem(X, y, ([0.] * 4, [0., 0.], ns, [], []))
s.update_subproblem(X, y, ([0.] * 4, [0., 2.], ns, [], []))
v = s.solver_.variable(s.y_vars_[1])
sys.exit(0 if s.solver_.Objective().GetCoefficient(v) == -2 else 1)
'''),
    dict(id="d12-removed-row-dual", property="D12", file=F,
         edits=[("""                row_satisfies_path_array[row] = True
                row_weight = 1
                if self.data_rows != None:
                    row_weight = self.data_rows[row].weight
                    if self.data_rows[row].removed_from_sp:
                        continue
""", """                row_weight = 1
                if self.data_rows != None:
                    row_weight = self.data_rows[row].weight
                    if self.data_rows[row].removed_from_sp:
                        continue
                row_satisfies_path_array[row] = True
""")],
         needs="a row removed from pricing whose dual is positive",
         breaks="the heuristic ignores the dual of such rows and returns paths without positive reduced cost",
         demo='''X = np.array([[0, 0], [0, 0]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
ns = zero_ns(nodes, leaves)
h = DTreeSubProblemHeuristic(leaves, nodes, splits, [0, 1], 2, data_rows=rows(2, removed_from_sp=[0, 1]))
got = quiet(h.generate_columns, X, np.array([0, 0]), ([0.] * 4, [0., 5.], ns, [], []))
sys.exit(0 if got == [] else 1)
'''),
    dict(id="d12-tolerance-sign", property="D12", file=F,
         edits=[("        if original_objective <= 1e-6:\n            return\n", "        if abs(original_objective) <= 1e-6:\n            return\n")],
         needs="an intermediate CP-SAT solution whose reduced cost is negative",
         breaks="paths of negative reduced cost are returned",
         demo='''X = np.array([[0, 0], [0, 0]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
ns = zero_ns(nodes, leaves)
s = DTreeSubProblemSat(leaves[0], nodes, splits, [0, 1], 2)
got = quiet(s.generate_columns, X, np.array([0, 0]), ([7.] * 4, [0., 0.], ns, [], []))
sys.exit(0 if got == [] else 1)
'''),
    dict(id="d13-first-weight", property="D13", file=F,
         edits=[("                    possible_targets[target] = row_weight\n", "                    possible_targets[target] = 1\n")],
         needs="data rows with weights other than one",
         breaks="the cost of a heuristic path is not the total weight of its rows",
         demo='''X = np.array([[0, 0], [0, 0]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
ns = zero_ns(nodes, leaves)
h = DTreeSubProblemHeuristic(leaves, nodes, splits, [0, 1], 2, data_rows=rows(2, weight=[3, 2]))
got = quiet(h.generate_columns, X, np.array([0, 0]), ([0.] * 4, [0., 0.], ns, [], []))
sys.exit(0 if [p.cost for p in got] == [5] else 1)
'''),
    dict(id="d13-split-order", property="D13", file=F,
         edits=[("class DTreeSubProblem(", "                    path.splits.append(split)\n                    break\n\n        for target in self.targets_:", "                    path.splits.append(split)\n                    break\n        path.node_ids = nodes\n\n        for target in self.targets_:")],
         needs="a leaf whose left nodes listed first are not in the order of node numbers",
         breaks="the MIP pricing problem pairs splits with the wrong nodes",
         demo='''X = np.array([[0, 0], [0, 0]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5), (0, .2)], [[0], [1], [2]])
ns = zero_ns(nodes, leaves)
s = DTreeSubProblem(leaves[0], nodes, splits, [0, 1], 2)
d = ([-1.] * 4, [0., 0.], ns, [], [])
s.update_subproblem(X, np.array([0, 0]), d)
got = quiet(s.generate_columns, X, np.array([0, 0]), d)
sys.exit(0 if len(got) == 1 and dict(zip(got[0].node_ids, got[0].splits)) == {0: 0, 1: 1} else 1)
'''),
    dict(id="d14-worthless-path", property="D14", file=F,
         edits=[("            for path in selected_paths:\n                if row_satisfies_path(", "            for path in selected_paths:\n                if path.cost <= 0:\n                    continue\n                if row_satisfies_path(")],
         needs="a selected path that classifies no training row correctly",
         breaks="samples that follow such a path are predicted the first class",
         demo='''X = np.array([[0, 0], [0, 1], [1, 0], [1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
ps = [mkpath(i, {0: 0, 1: 1, 2: 1}, 0, 1) for i in range(4)]
c = DTreeClassifier(ps, leaves, nodes, splits, tree_depth=2, targets=[0, 1], max_iterations=0)
quiet(c.fit, X, np.array([0, 1, 0, 1]))
c.master_problem.selected_paths = ps
sys.exit(0 if list(c.predict(X)) == [1, 1, 1, 1] else 1)
'''),
    dict(id="d14-old-model", property="D14", file=F,
         edits=[("        model_proto = linear_solver_pb2.MPModelProto()\n        self.solver_.ExportModelToProto(model_proto)\n        solver.LoadModelFromProto(model_proto)\n\n        num_path_vars",
                 "        if getattr(self, 'model_size_', None) != len(self.paths_):\n            self.model_proto_ = linear_solver_pb2.MPModelProto()\n            self.solver_.ExportModelToProto(self.model_proto_)\n            self.model_size_ = len(self.paths_)\n        solver.LoadModelFromProto(self.model_proto_)\n\n        num_path_vars")],
         needs="the integer master solved, a row or cut added, and solved again without a new path",
         breaks="the integer master is solved on an older model",
         demo='''X = np.array([[0, 0, 0], [1, 1, 0], [0, 0, 1], [0, 1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5), (2, .5)], [[0, 1], [1, 2], [1, 2]])
ps = [mkpath(i, {0: 0, 1: 1, 2: 1}, 1, 0) for i in range(4)] + [mkpath(0, {0: 0, 1: 1}, 3, 1)]
m = DTreeMasterProblem(ps, leaves, nodes, splits, data_rows=rows(4))
quiet(m.generate_mp, X, np.array([0, 1, 0, 0]))
quiet(m.solve_ip)
c = m.solver_.Constraint(0, 0, "no")
c.SetCoefficient(m.solver_.variable(4), 1)
quiet(m.solve_ip)
sys.exit(0 if ps[4] not in m.selected_paths else 1)
'''),
    dict(id="d15-nodes-not-leaves", property="D15", file=F,
         edits=[("            if len(data_row.reachable_leaves) <= 2:\n", "            if len(data_row.reachable_leaves) <= 2 or \\\n                    len(data_row.reachable_nodes) < len(self.nodes_) // 2:\n")],
         needs="a tree of depth three in which a row reaches only few nodes but more than two leaves",
         breaks="rows that reach three or four leaves are dropped from the master",
         demo='''X = np.array([[0, 0, 1], [1, 1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5), (2, .5)], [[0], [1], [1]] + [[0, 2]] * 4 + [[1, 2]] * 8, 4)
nodes[1].candidate_splits = [0, 1]
m = DTreeMasterProblem([], leaves, nodes, splits)
m.X_, m.y_ = X, np.array([0, 1])
r = quiet(m.preprocess_rows)
sys.exit(0 if all(len(x.reachable_leaves) <= 2 or not x.removed_from_master for x in r) and len(r[0].reachable_leaves) > 2 else 1)
'''),
    dict(id="d15-left-only", property="D15", file=F,
         edits=[("                        valid_splits.add(split_id)\n", "                        if split_id in data_rows[r1].left_splits:\n                            valid_splits.add(split_id)\n")],
         needs="aggressive preprocessing and a row that goes right where the kept row goes right and left elsewhere",
         breaks="a row that takes another branch than the kept row is removed",
         demo='''X = np.array([[1, 0, 0], [0, 0, 0], [0, 1, 1]])
best = None
for cand in ([[0, 1], [0, 2], [0, 2]], [[1, 2], [0, 1], [0, 1]], [[0, 1, 2]] * 3):
    splits, nodes, leaves = tree(X, [(0, .5), (1, .5), (2, .5)], cand)
    m = DTreeMasterProblem([], leaves, nodes, splits)
    m.X_, m.y_ = X, np.array([0, 1, 0])
    r = quiet(m.preprocess_rows, True)
    for i, b in enumerate(r):
        if not b.removed_from_master or len(b.reachable_leaves) <= 2:
            continue
        if not any(not a.removed_from_master and a.reachable_nodes == b.reachable_nodes and all(
                (s in a.left_splits) == (s in b.left_splits) for n in b.reachable_nodes for s in nodes[n].candidate_splits) for a in r):
            sys.exit(1)
'''),
    dict(id="d16-shared-target", property="D16", file=F,
         edits=[("                for target in self.targets:\n                    subproblem = DTreeSubProblemOld(", "                for target in range(len(self.targets)):\n                    subproblem = DTreeSubProblemOld(")],
         needs="the original formulation with targets that are not numbered in order from zero",
         breaks="the per-target problems are built for other targets than the declared ones",
         demo='''X = np.array([[0, 0], [0, 1], [1, 0], [1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
ps = [mkpath(i, {0: 0, 1: 1, 2: 1}, 0, 1) for i in range(4)]
c = DTreeClassifier(ps, leaves, nodes, splits, tree_depth=2, targets=[1, 0], use_old_sp=True)
sys.exit(0 if [s.target_ for s in c.subproblems[1]] == [1, 0] * 4 else 1)
'''),
    dict(id="d16-length-any", property="D16", file=F,
         edits=[("            assert len(path.splits) == self.tree_depth\n", "        assert all(len(path.splits) == len(path.node_ids)\n                   for path in self.initial_paths)\n        assert not initial_paths or len(path.splits) == self.tree_depth\n"),
                ("            assert len(path.node_ids) == self.tree_depth\n", "")],
         needs="an initial path of the wrong length that is not the last one",
         breaks="construction accepts initial paths that are shorter than the tree is deep",
         demo='''X = np.array([[0, 0], [0, 1], [1, 0], [1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
ps = [mkpath(i, {0: 0, 1: 1, 2: 1}, 0, 1) for i in range(4)]
ps[0].node_ids, ps[0].splits = ps[0].node_ids[:1], ps[0].splits[:1]
try:
    DTreeClassifier(ps, leaves, nodes, splits, tree_depth=2, targets=[0, 1])
except AssertionError:
    sys.exit(0)
sys.exit(1)
'''),
    dict(id="c08-depth-int", property="C08", file=F,
         edits=[("        self.tree_depth = tree_depth\n        self.targets = targets\n", "        self.tree_depth = int(tree_depth)\n        self.targets = targets\n")],
         needs="a tree depth that is not a plain integer object, such as a numpy integer from a parameter search",
         breaks="the parameter read back is not the object passed, so cloning the estimator fails",
         demo='''from sklearn.base import clone
X = np.array([[0, 0], [0, 1], [1, 0], [1, 1]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
d = np.int64(2)
c = DTreeClassifier([], leaves, nodes, splits, tree_depth=d, targets=[0, 1])
sys.exit(0 if c.tree_depth is d else 1)
'''),
    dict(id="c08-bdr-cap", property="C08", file="col_gen_estimator/_bdr_classifier.py", edits=[],
         needs="", breaks="", demo=""),
    dict(id="c10-shuffled-leaves", property="C10", file=F,
         edits=[("        cut_rows = dual_costs[4]\n\n        for i, cut_row in enumerate(cut_rows):\n            cut_index = self.num_cuts + i\n", "        cut_rows = dual_costs[4]\n        if len(cut_rows) > 0:\n            self.leaves_.sort(key=lambda leaf: len(leaf.left_nodes))\n\n        for i, cut_row in enumerate(cut_rows):\n            cut_index = self.num_cuts + i\n")],
         needs="training in which a cut is added",
         breaks="training reorders the caller's list of leaves",
         demo='''X = np.array([[0, 0], [0, 0]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0], [1], [1]])
ns = zero_ns(nodes, leaves)
h = DTreeSubProblemHeuristic(leaves, nodes, splits, [0, 1], 2)
h.get_reduced_cost = lambda *a: 0
quiet(h.update_subproblem, X, np.array([0, 0]), ([0.] * 4, [0., 0.], ns, [0.], [[True, False]]))
sys.exit(0 if [l.id for l in leaves] == [0, 1, 2, 3] else 1)
'''),
    dict(id="c10-candidates-used-up", property="C10", file=F,
         edits=[("                candidate_splits = node.candidate_splits.copy()\n", "                candidate_splits = node.candidate_splits\n")],
         needs="two nodes on the way to a leaf that share a candidate split",
         breaks="the heuristic removes candidate splits from the caller's nodes",
         demo='''X = np.array([[0, 0], [0, 0]])
splits, nodes, leaves = tree(X, [(0, .5), (1, .5)], [[0, 1], [0, 1], [0, 1]])
ns = zero_ns(nodes, leaves)
h = DTreeSubProblemHeuristic(leaves, nodes, splits, [0, 1], 2)
quiet(h.generate_columns, X, np.array([0, 0]), ([0.] * 4, [0., 0.], ns, [], []))
sys.exit(0 if [n.candidate_splits for n in nodes] == [[0, 1]] * 3 else 1)
'''),
]
SEEDS = [s for s in SEEDS if s["edits"]]
