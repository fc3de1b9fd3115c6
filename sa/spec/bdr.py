"""Reference description of the rule learning problems, written directly from the properties B01-B08.

It is analysed by the same summariser as the package and never run."""
import itertools
from ortools.linear_solver.linear_solver_pb2 import MPModelProto
from ortools.linear_solver import pywraplp


def satisfies(row, clause):
    return 1 if all(row[f] != 0 for f in clause) else 0


class Master:
    def __init__(self, C, p, X, y):
        s = self.s = pywraplp.Solver.CreateSolver('glop')
        self.X, self.y, self.C, self.p = X, y, C, p
        inf = s.infinity()
        self.complexity = s.Constraint(-inf, C, '')
        self.rows = []
        for i in range(len(X)):
            if y[i] == 1:
                row = s.Constraint(1, inf, '')
                xi = s.IntVar(0, inf, '')
                row.SetCoefficient(xi, 1)
                s.Objective().SetCoefficient(xi, p)
                self.rows.append((i, row))
        self.clauses = []
        self.add([])
        s.Objective().SetMinimization()

    def add(self, clause):
        s = self.s
        v = s.IntVar(0, s.infinity(), '')
        s.Objective().SetCoefficient(v, sum(satisfies(self.X[i], clause) for i in range(len(self.X)) if self.y[i] == 0))
        self.complexity.SetCoefficient(v, len(clause) + 1)
        for i, row in self.rows:
            row.SetCoefficient(v, satisfies(self.X[i], clause))
        self.clauses.append((clause, v))

    def present(self, clause):
        return any(clause == c for c, _ in self.clauses)

    def lp(self):
        self.s.Solve()
        return (abs(self.complexity.dual_value()), [row.dual_value() for _, row in self.rows])

    def ip(self):
        s = pywraplp.Solver.CreateSolver('sat')
        m = MPModelProto()
        self.s.ExportModelToProto(m)
        s.LoadModelFromProto(m)
        status = s.Solve()
        assert status == pywraplp.Solver.OPTIMAL or status == pywraplp.Solver.FEASIBLE
        return [c for c, v in self.clauses if v.solution_value() > 0]


class Pricing:
    def __init__(self, D, X, y):
        s = self.s = pywraplp.Solver.CreateSolver('cbc')
        self.y = y
        self.z = [s.BoolVar('') for _ in range(X.shape[1])]
        self.d = [s.BoolVar('') for _ in range(len(X))]
        size = s.Constraint(0, D, '')
        for z in self.z:
            size.SetCoefficient(z, 1)
        for i in range(len(X)):
            if y[i] == 1:
                # covered only if no selected feature is zero
                for j in range(X.shape[1]):
                    if X[i, j] == 0:
                        c = s.Constraint(-s.infinity(), 1, '')
                        c.SetCoefficient(self.d[i], 1)
                        c.SetCoefficient(self.z[j], 1)
            else:
                # covered unless some selected feature is zero
                c = s.Constraint(1, s.infinity(), '')
                c.SetCoefficient(self.d[i], 1)
                for j in range(X.shape[1]):
                    if X[i, j] == 0:
                        c.SetCoefficient(self.z[j], 1)
        s.Objective().SetMinimization()

    def price(self, cc, cs):
        o = self.s.Objective()
        o.SetOffset(cc)
        for z in self.z:
            o.SetCoefficient(z, cc)
        k = 0
        for i in range(len(self.y)):
            if self.y[i] == 1:
                o.SetCoefficient(self.d[i], -cs[k])
                k += 1
            else:
                o.SetCoefficient(self.d[i], 1)
        status = self.s.Solve()
        assert status == pywraplp.Solver.OPTIMAL or status == pywraplp.Solver.FEASIBLE
        if o.Value() < -1e-6:
            return [[j for j in range(len(self.z)) if self.z[j].solution_value() > 0]]
        return []


def heuristic(K, X, y, cc, cs):
    out = []
    for size in range(1, K + 1):
        for clause in itertools.combinations(range(X.shape[1]), size):
            cost = cc * (1 + size)
            k = 0
            for i in range(len(X)):
                if y[i] == 1:
                    cost -= cs[k] * satisfies(X[i], clause)
                    k += 1
                else:
                    cost += satisfies(X[i], clause)
            if cost < -1e-6:
                out.append(list(clause))
    return out


def predict(X, clauses):
    return [1 if any(satisfies(X[i], c) for c in clauses) else 0 for i in range(len(X))]
