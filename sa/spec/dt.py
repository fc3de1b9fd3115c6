"""Reference description of the decision tree problems, written directly from the properties D02-D16.

It is analysed by the same summariser as the package and never run."""
from ortools.linear_solver import pywraplp
from ortools.linear_solver import linear_solver_pb2
from ortools.sat.python import cp_model


def goes_left(x, split):
    return x[split.feature] <= split.threshold


def follows(x, leaf, splits, path):
    for i in range(len(path.node_ids)):
        left = path.node_ids[i] in leaf.left_nodes
        if left != goes_left(x, splits[path.splits[i]]):
            return False
    return True


def rows_following(r, path, leaf, splits):
    for i in range(len(path.node_ids)):
        s = splits[path.splits[i]]
        if r not in (s.left_rows if path.node_ids[i] in leaf.left_nodes else s.right_rows):
            return False
    return True


def cuts_following(r, path, leaf, splits):
    for i in range(len(path.node_ids)):
        s = splits[path.splits[i]]
        if r not in (s.left_cuts if path.node_ids[i] in leaf.left_nodes else s.right_cuts):
            return False
    return True


def assignment_follows(left, path, leaf):
    for i in range(len(path.node_ids)):
        if left[path.splits[i]] != (path.node_ids[i] in leaf.left_nodes):
            return False
    return True


class Master:
    def __init__(self, paths, leaves, nodes, splits, as_cuts, rows, X):
        self.paths, self.leaves, self.nodes, self.splits = list(paths), leaves, nodes, splits
        self.rows, self.X, self.cut, self.found = rows, X, [], []
        self.s = s = pywraplp.Solver.CreateSolver("glop")
        self.x = [s.IntVar(0, s.infinity(), "") for p in paths]
        for i in range(len(paths)):
            s.Objective().SetCoefficient(self.x[i], paths[i].cost)
        s.Objective().SetMaximization()
        self.leaf = []
        for l in range(len(leaves)):
            c = s.Constraint(1, 1)
            self.leaf.append(c)
            for i in range(len(paths)):
                if paths[i].leaf_id == l:
                    c.SetCoefficient(self.x[i], 1)
        self.row, self.has_row = [None] * X.shape[0], [False] * X.shape[0]
        for r in range(X.shape[0]):
            if not as_cuts and not rows[r].removed_from_master:
                self.has_row[r] = True
                self.row[r] = c = s.Constraint(-s.infinity(), 1)
                for i in range(len(paths)):
                    if follows(X[r], leaves[paths[i].leaf_id], splits, paths[i]):
                        c.SetCoefficient(self.x[i], 1)
        self.uses, self.ns = {}, {}
        for leaf in leaves:
            self.ns[leaf.id] = {}
            for n in leaf.left_nodes + leaf.right_nodes:
                self.ns[leaf.id][n] = {}
                for k in nodes[n].candidate_splits:
                    if (n, k) not in self.uses:
                        self.uses[n, k] = s.IntVar(0, s.infinity(), "").index()
                    c = s.Constraint(0, 0)
                    c.SetCoefficient(s.variable(self.uses[n, k]), -1)
                    for i in range(len(paths)):
                        if paths[i].leaf_id == leaf.id and splits_at(paths[i], n, k):
                            c.SetCoefficient(self.x[i], 1)
                    self.ns[leaf.id][n][k] = c

    def add(self, p):
        x = self.s.IntVar(0, self.s.infinity(), "")
        self.x.append(x)
        self.paths.append(p)
        self.s.Objective().SetCoefficient(x, p.cost)
        for l in range(len(self.leaves)):
            if p.leaf_id == l:
                self.leaf[l].SetCoefficient(x, 1)
        for r in range(self.X.shape[0]):
            if self.has_row[r] and rows_following(r, p, self.leaves[p.leaf_id], self.splits):
                self.row[r].SetCoefficient(x, 1)
        for leaf in self.leaves:
            for n in leaf.left_nodes + leaf.right_nodes:
                for k in self.nodes[n].candidate_splits:
                    if p.leaf_id == leaf.id and splits_at(p, n, k):
                        self.ns[leaf.id][n][k].SetCoefficient(x, 1)
        for j in range(len(self.cut)):
            if assignment_follows(self.found[j], p, self.leaves[p.leaf_id]):
                self.cut[j].SetCoefficient(x, 1)

    def store(self):
        self.value = [x.solution_value() for x in self.x]

    def separate_rows(self):
        n = 0
        for r in range(self.X.shape[0]):
            if self.rows[r].removed_from_master or self.has_row[r] or n >= 10:
                continue
            total = sum(v for p, v in zip(self.paths, self.value)
                        if follows(self.X[r], self.leaves[p.leaf_id], self.splits, p))
            if abs(total - 1) > 1e-6:
                n += 1
                self.has_row[r] = True
                self.row[r] = c = self.s.Constraint(-self.s.infinity(), 1)
                for p, x in zip(self.paths, self.x):
                    if follows(self.X[r], self.leaves[p.leaf_id], self.splits, p):
                        c.SetCoefficient(x, 1)
        return n

    def separate_cuts(self, model):
        found = CutsFound(model, self.value)
        model.m.Maximize(sum(v * p for v, p in zip(self.value, model.p)))       # how solutions are ranked is not compared
        cp_model.CpSolver().Solve(model.m, found)
        self.found.extend(found.rows)
        model.found.extend(found.rows)
        for paths in found.paths:
            c = self.s.Constraint(1, 1)
            self.cut.append(c)
            for p, x in zip(paths, self.x):
                if p:
                    c.SetCoefficient(x, 1)
        return found.rows

    def ip(self):
        s = pywraplp.Solver.CreateSolver('sat')
        m = linear_solver_pb2.MPModelProto()
        self.s.ExportModelToProto(m)
        s.LoadModelFromProto(m)
        st = s.Solve()
        assert st == pywraplp.Solver.OPTIMAL or st == pywraplp.Solver.FEASIBLE
        return [p for p, x in zip(self.paths, self.x) if s.variable(x.index()).solution_value() > 0]

    def solve_lp(self, rounds=0, separate=False, model=None):
        st = self.s.Solve()
        new = []
        for k in range(rounds):
            if st != pywraplp.Solver.OPTIMAL:
                break
            self.store()
            n, before = 0, len(self.cut)
            if separate:
                n = self.separate_rows()
            if model is not None and n == 0:
                new += self.separate_cuts(model)
            if n == 0 and len(self.cut) == before:
                break
            st = self.s.Solve()
        leaf_duals, row_duals, cut_duals, ns_duals = [], [], [], {}
        if st == pywraplp.Solver.OPTIMAL:
            leaf_duals = [c.dual_value() for c in self.leaf]
            cut_duals = [c.dual_value() for c in self.cut]
            row_duals = [self.row[r].dual_value() if self.has_row[r] else 0 for r in range(self.X.shape[0])]
            for leaf in self.leaves:
                ns_duals[leaf.id] = {}
                for n in leaf.left_nodes + leaf.right_nodes:
                    ns_duals[leaf.id][n] = {}
                    for k in self.nodes[n].candidate_splits:
                        ns_duals[leaf.id][n][k] = self.ns[leaf.id][n][k].dual_value()
        return leaf_duals, row_duals, ns_duals, cut_duals, new


class CutModel:
    """Split assignments and the paths they follow."""

    def __init__(self, paths, leaves, splits):
        self.leaves, self.splits, self.found = leaves, splits, []
        self.m = m = cp_model.CpModel()
        self.z = [m.NewBoolVar("") for s in splits]
        self.p = []
        for i in range(len(splits)):
            for j in range(i + 1, len(splits)):
                if splits[i].feature == splits[j].feature:
                    if splits[i].threshold < splits[j].threshold:
                        m.AddImplication(self.z[i], self.z[j])
                    else:
                        m.AddImplication(self.z[j], self.z[i])
        for p in paths:
            self.add(p)

    def add(self, path):
        p = self.m.NewBoolVar("")
        self.p.append(p)
        leaf = self.leaves[path.leaf_id]
        lits = [self.z[path.splits[i]] if path.node_ids[i] in leaf.left_nodes else self.z[path.splits[i]].Not()
                for i in range(len(path.node_ids))]
        self.m.AddBoolAnd(lits).OnlyEnforceIf(p)
        self.m.AddBoolOr([x.Not() for x in lits]).OnlyEnforceIf(p.Not())

    def left(self, split, cut):
        return any(k == cut and row[split] for k, row in enumerate(self.found))

    def right(self, split, cut):
        return any(k == cut and not row[split] for k, row in enumerate(self.found))


class CutsFound(cp_model.CpSolverSolutionCallback):
    """Solutions whose paths have a total value larger than one."""

    def __init__(self, m, value):
        cp_model.CpSolverSolutionCallback.__init__(self)
        self.m, self.value = m, value
        self.paths, self.rows = [], []

    def on_solution_callback(self):
        paths = [self.Value(p) > 0 for p in self.m.p]
        if sum(v for v, p in zip(self.value, paths) if p) > 1 + 1e-6:
            self.paths.append(paths)
            self.rows.append([self.Value(z) > 0 for z in self.m.z])


def splits_at(path, node, split):
    return any(path.node_ids[j] == node and path.splits[j] == split for j in range(len(path.node_ids)))


class Path:
    pass


class Pricing:
    """Best path of a leaf: u[n, k] split k at node n, y[r] row r reaches the leaf, c[j] cut j is followed."""

    def __init__(self, leaf, nodes, splits, depth, rows, X):
        self.s = s = pywraplp.Solver.CreateSolver("cbc")
        self.leaf, self.nodes, self.splits, self.depth, self.rows = leaf, nodes, splits, depth, rows
        self.nrows = X.shape[0]
        self.on_path = leaf.left_nodes + leaf.right_nodes
        s.Objective().SetMaximization()
        self.u = {}
        for n in self.on_path:
            self.u[n] = {}
            one = s.Constraint(1, 1)
            for k in nodes[n].candidate_splits:
                self.u[n][k] = s.BoolVar("").index()
                one.SetCoefficient(s.variable(self.u[n][k]), 1)
        self.y = [None] * self.nrows
        for r in range(self.nrows):
            if self.kept(r):
                self.y[r] = y = s.BoolVar("")
                self.reaches(y, lambda n, k: goes_left(X[r], splits[k]))
        self.c = []
        self.ncuts = 0

    def kept(self, r):
        return self.rows is None or not self.rows[r].removed_from_sp

    def weight(self, r):
        return 1 if self.rows is None else self.rows[r].weight

    def reaches(self, y, left):
        """y is 1 exactly if every node's split sends it to the leaf's side."""
        s = self.s
        all_ = s.Constraint(-s.infinity(), self.depth - 1)
        all_.SetCoefficient(y, -1)
        for n in self.on_path:
            c = s.Constraint(-s.infinity(), 0)
            c.SetCoefficient(y, 1)
            for k in self.nodes[n].candidate_splits:
                if left(n, k) == (n in self.leaf.left_nodes):
                    c.SetCoefficient(s.variable(self.u[n][k]), -1)
                    all_.SetCoefficient(s.variable(self.u[n][k]), 1)

    def duals(self, leaf_duals, row_duals, ns_duals, cut_duals, cut_rows):
        s, o = self.s, self.s.Objective()
        for r in range(self.nrows):
            if self.kept(r):
                o.SetCoefficient(self.y[r], self.gain(r) - row_duals[r])
        known = len(self.c)
        for j in range(len(cut_duals)):
            if j < known:
                c = s.variable(self.c[j])
            else:
                c = s.BoolVar("")
                self.c.append(c.index())
            o.SetCoefficient(c, -cut_duals[j])
        for n in self.on_path:
            for k in self.nodes[n].candidate_splits:
                o.SetCoefficient(s.variable(self.u[n][k]), -ns_duals[self.leaf.id][n][k])
        o.SetOffset(-leaf_duals[self.leaf.id])
        for j in range(len(cut_rows)):
            self.reaches(s.variable(self.c[self.ncuts + j]), lambda n, k: cut_rows[j][k])
        self.ncuts += len(cut_rows)

    def price(self):
        st = self.s.Solve()
        if not (st == pywraplp.Solver.OPTIMAL or st == pywraplp.Solver.FEASIBLE) or self.s.Objective().Value() <= 1e-6:
            return []
        p = Path()
        p.leaf_id = self.leaf.id
        p.node_ids, p.splits = [], []
        for node in self.nodes:
            if node.id in self.on_path:
                p.node_ids.append(node.id)
                for k in node.candidate_splits:
                    if self.s.variable(self.u[node.id][k]).solution_value() > 0.5:
                        p.splits.append(k)
                        break
        self.reward(p)
        return [p]


class PricingMip(Pricing):
    """w[t]: target t, z[r]: row r is correct."""

    def __init__(self, leaf, nodes, splits, ntargets, depth, rows, X, Y):
        Pricing.__init__(self, leaf, nodes, splits, depth, rows, X)
        s = self.s
        self.nt = ntargets
        self.w = [s.BoolVar("") for t in range(ntargets)]
        one = s.Constraint(1, 1)
        for w in self.w:
            one.SetCoefficient(w, 1)
        self.z = [None] * self.nrows
        for r in range(self.nrows):
            if self.kept(r):
                self.z[r] = z = s.BoolVar("")
                s.Objective().SetCoefficient(z, self.weight(r))
                c = s.Constraint(-s.infinity(), 0)
                c.SetCoefficient(z, 1)
                c.SetCoefficient(self.y[r], -1)
                c = s.Constraint(-s.infinity(), 0)
                c.SetCoefficient(z, 1)
                c.SetCoefficient(self.w[Y[r]], -1)

    def gain(self, r):
        return 0

    def reward(self, p):
        p.target = -1
        for t in range(self.nt):
            if self.w[t].solution_value() > 0.5:
                p.target = t
                break
        p.cost = sum(self.weight(r) * self.z[r].solution_value() for r in range(self.nrows) if self.kept(r))


class PricingTarget(Pricing):
    """Only paths with the given target."""

    def __init__(self, leaf, nodes, splits, target, depth, rows, X, Y):
        Pricing.__init__(self, leaf, nodes, splits, depth, rows, X)
        self.target, self.Y = target, Y

    def gain(self, r):
        return self.weight(r) if self.Y[r] == self.target else 0

    def reward(self, p):
        p.target = self.target
        p.cost = sum(self.weight(r) * self.y[r].solution_value() for r in range(self.nrows)
                     if self.kept(r) and self.Y[r] == self.target)


class PricingSat:
    """CP-SAT form of PricingMip; the objective is scaled by 100000 and rounded."""

    def __init__(self, leaf, nodes, splits, ntargets, depth, rows, X, Y):
        self.m = m = cp_model.CpModel()
        self.leaf, self.nodes, self.splits, self.depth, self.rows = leaf, nodes, splits, depth, rows
        self.nrows, self.nt = X.shape[0], ntargets
        self.on_path = leaf.left_nodes + leaf.right_nodes
        self.u = {}
        for n in self.on_path:
            self.u[n] = {}
            for k in nodes[n].candidate_splits:
                self.u[n][k] = m.NewBoolVar("")
            m.Add(sum(self.u[n][k] for k in nodes[n].candidate_splits) == 1)
        self.w = [m.NewBoolVar("") for t in range(ntargets)]
        m.Add(sum(self.w) == 1)
        self.y, self.z = [None] * self.nrows, [None] * self.nrows
        for r in range(self.nrows):
            if self.kept(r):
                self.y[r] = y = m.NewBoolVar("")
                self.reaches(y, lambda n, k: goes_left(X[r], splits[k]))
                self.z[r] = m.NewBoolVar("")
                m.Add(self.z[r] <= y)
                m.Add(self.z[r] <= self.w[Y[r]])
        self.c = []
        self.ncuts = 0

    def kept(self, r):
        return self.rows is None or not self.rows[r].removed_from_sp

    def weight(self, r):
        return 1 if self.rows is None else self.rows[r].weight

    def right_side(self, left, n):
        """Number of chosen splits of node n that send the row to the leaf's side."""
        return sum(self.u[n][k] for k in self.nodes[n].candidate_splits if left(n, k) == (n in self.leaf.left_nodes))

    def reaches(self, y, left):
        for n in self.on_path:
            self.m.Add(y <= self.right_side(left, n))
        self.m.Add(sum(self.right_side(left, n) for n in self.on_path) - y <= self.depth - 1)

    def duals(self, leaf_duals, row_duals, ns_duals, cut_duals, cut_rows):
        self.leaf_dual, self.row_duals, self.ns, self.cd = leaf_duals[self.leaf.id], row_duals, ns_duals[self.leaf.id], cut_duals
        for j in range(len(self.c), len(cut_duals)):
            self.c.append(self.m.NewBoolVar(""))
        for j in range(len(cut_rows)):
            self.reaches(self.c[self.ncuts + j], lambda n, k: cut_rows[j][k])
        self.ncuts += len(cut_rows)

    def scaled(self, v):
        return int(round(v * 100000))

    def price(self):
        self.m.Maximize(sum(self.scaled(self.weight(r)) * self.z[r] + self.scaled(-self.row_duals[r]) * self.y[r]
                            for r in range(self.nrows) if self.kept(r))
                        + sum(self.scaled(-self.cd[j]) * self.c[j] for j in range(len(self.cd)))
                        + sum(self.scaled(-self.ns[n][k]) * self.u[n][k]
                              for n in self.on_path for k in self.nodes[n].candidate_splits)
                        - self.leaf_dual)
        found = Found(self)
        cp_model.CpSolver().Solve(self.m, found)
        return found.paths


class Found(cp_model.CpSolverSolutionCallback):
    def __init__(self, sp):
        cp_model.CpSolverSolutionCallback.__init__(self)
        self.sp = sp
        self.paths = []

    def on_solution_callback(self):
        s = self.sp
        cost = sum(s.weight(r) * self.Value(s.z[r]) for r in range(s.nrows) if s.kept(r))
        value = (cost - sum(s.row_duals[r] * self.Value(s.y[r]) for r in range(s.nrows) if s.kept(r))
                 - sum(s.cd[j] * self.Value(s.c[j]) for j in range(len(s.cd)))
                 - sum(s.ns[n][k] * self.Value(s.u[n][k]) for n in s.on_path for k in s.nodes[n].candidate_splits)
                 - s.leaf_dual)
        if value <= 1e-6:
            return
        p = Path()
        p.leaf_id = s.leaf.id
        p.node_ids, p.splits = [], []
        for n in s.on_path:
            p.node_ids.append(n)
            for k in s.nodes[n].candidate_splits:
                if self.Value(s.u[n][k]) > 0.5:
                    p.splits.append(k)
                    break
        p.target = -1
        for t in range(s.nt):
            if self.Value(s.w[t]) > 0.5:
                p.target = t
                break
        p.cost = cost
        self.paths.append(p)


def predict(X, leaves, splits, paths):
    out = []
    for r in range(X.shape[0]):
        target = 0
        for p in paths:
            if follows(X[r], leaves[p.leaf_id], splits, p):
                target = p.target
                break
        out.append(target)
    return out


def validate(paths, leaves, nodes, splits, depth, targets):
    for i in range(len(nodes)):
        assert nodes[i].id == i
    for i in range(len(leaves)):
        assert leaves[i].id == i
    for p in paths:
        assert p.leaf_id in [leaf.id for leaf in leaves]
        for n in p.node_ids:
            assert n in [node.id for node in nodes]
        for k in p.splits:
            assert k in [split.id for split in splits]
        assert p.target in targets
        assert len(p.node_ids) == depth
        assert len(p.splits) == depth


class Wmaster:
    pass


class Wexact:
    pass


class Wold:
    pass


class Wheuristic:
    pass


def wire(paths, leaves, nodes, splits, depth, targets, rounds, beta, cuts, rows, old, solver):
    m = Wmaster()
    m.kind = "master"
    m.initial_paths, m.leaves, m.nodes, m.splits, m.data_rows = paths, leaves, nodes, splits, rows
    m.beta_constraints_as_cuts, m.generate_cuts, m.num_cuts_round, m.solver_type = beta, cuts, rounds, solver
    h = Wheuristic()
    h.kind = "heuristic"
    h.leaves, h.nodes, h.splits, h.targets, h.depth, h.data_rows = leaves, nodes, splits, targets, depth, rows
    exact = []
    for leaf in leaves:
        if old:
            for t in targets:
                s = Wold()
                s.kind = "old"
                s.leaf, s.nodes, s.splits, s.target, s.depth, s.data_rows = leaf, nodes, splits, t, depth, rows
                exact.append(s)
        else:
            s = Wexact()
            s.kind = "exact"
            s.leaf, s.nodes, s.splits, s.targets, s.depth, s.data_rows = leaf, nodes, splits, targets, depth, rows
            exact.append(s)
    return m, [[h], exact]


def leaf_sides(leaf, depth):
    """Nodes at which the leaf lies on the left, on the right, and all of them."""
    left, right, all_ = [], [], []
    n = 2 ** depth - 1 + leaf
    while n > 0:
        p = (n - 1) // 2
        if n % 2 == 0:
            right.append(p)
        else:
            left.append(p)
        all_.append(p)
        n = p
    return left, right, all_


class TreeRow:
    pass


def new_tree(nodes):
    """Nodes whose place in the tree has not been computed yet."""
    for n in nodes:
        n.children_are_leaves = False


def new_splits(splits):
    """Splits to which no row has been added yet."""
    for s in splits:
        s.left_rows = set()
        s.right_rows = set()


def node_place(i, depth):
    """(parent, left child, right child, are they leaves) of node i; a leaf child is given by its leaf number."""
    inner = 2 ** depth - 1
    parent = -1 if i == 0 else (i - 1) // 2
    left, right = 2 * i + 1, 2 * i + 2
    if left >= inner:
        return parent, left - inner, right - inner, True
    return parent, left, right, False


def preprocess(X, nodes, splits, leaves, paths, depth, merge):
    inner = 2 ** depth - 1
    rows = []
    for r in range(X.shape[0]):
        row = TreeRow()
        row.left, row.right, row.nodes, row.leaves, row.paths = set(), set(), set(), set(), set()
        for k in range(len(splits)):
            if goes_left(X[r], splits[k]):
                row.left.add(k)
            else:
                row.right.add(k)
        for i in range(len(nodes)):
            if i == 0 or i in row.nodes:
                row.nodes.add(i)
                for k in nodes[i].candidate_splits:
                    child = 2 * i + 1 if k in row.left else 2 * i + 2
                    if 2 * i + 1 >= inner:
                        row.leaves.add(child - inner)
                    else:
                        row.nodes.add(child)
        row.removed = len(row.leaves) <= 2
        for p in paths:
            if follows(X[r], leaves[p.leaf_id], splits, p):
                row.paths.add(p.id)
        rows.append(row)
    if merge:
        for a in range(X.shape[0]):
            if not rows[a].removed:
                for b in range(a + 1, X.shape[0]):
                    if not rows[b].removed and rows[a].nodes == rows[b].nodes:
                        used = set()
                        for i in rows[a].nodes:
                            for k in nodes[i].candidate_splits:
                                used.add(k)
                        if not any((k in rows[a].left) != (k in rows[b].left) for k in used):
                            rows[b].removed = True
    return rows


def redundant(X, rows, nodes, splits, b):
    """Whether the constraint of row b may be left out, with the reachable nodes and leaves recorded in rows."""
    if len(rows[b].reachable_leaves) <= 2:
        return True
    for a in range(X.shape[0]):
        if not rows[a].removed_from_master and rows[a].reachable_nodes == rows[b].reachable_nodes and \
                not any(goes_left(X[a], splits[k]) != goes_left(X[b], splits[k])
                        for i in rows[a].reachable_nodes for k in nodes[i].candidate_splits):
            return True
    return False


def pricing_weight(rows):
    return sum(r.weight for r in rows if not r.removed_from_sp)


def reduced_cost(path, leaves, splits, leaf_duals, row_duals, ns_duals, cut_duals, flags):
    leaf = leaves[path.leaf_id]
    return (path.cost - leaf_duals[path.leaf_id]
            - sum(row_duals[r] for r in range(len(row_duals)) if flags[r])
            - sum(cut_duals[c] for c in range(len(cut_duals)) if cuts_following(c, path, leaf, splits))
            - sum(ns_duals[path.leaf_id][path.node_ids[i]][path.splits[i]] for i in range(len(path.node_ids))))
