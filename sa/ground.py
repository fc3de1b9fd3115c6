"""Small finite instances of optimisation models: used only to find an assignment that separates two descriptions
(without one no alarm is raised)."""
import random
from fractions import Fraction

from .lib import INF
from .term import T, K0, K1, neg
from .sepa import Undef, Sym


class Lin(Sym):
    """Linear form over ground variables."""
    __slots__ = ("c", "m")

    def __init__(self, c, m=None):
        self.c, self.m = c, m or {}

    def __add__(self, o):
        if isinstance(o, Lin):
            m = dict(self.m)
            for k, v in o.m.items():
                m[k] = m.get(k, 0) + v
            return Lin(self.c + o.c, m)
        return Lin(self.c + o, self.m)

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, Lin):
            if not o.m:
                o = o.c
            elif not self.m:
                return o * self.c
            else:
                raise Undef("product of variables")
        return Lin(self.c * o, {k: v * o for k, v in self.m.items()})

    __rmul__ = __mul__

    def value(self, a):
        return self.c + sum(v * a[k] for k, v in self.m.items())

    def __lt__(self, o):
        raise Undef("condition on a variable")


class Budget(Exception):
    pass


class Ground:
    """Model of one side at one valuation."""

    def __init__(self, model, V):
        self.vars, self.cons, self.funs = {}, [], []
        self.V = V
        old = V.varval
        V.varval = lambda label, args, V_: Lin(0, {(label, args): 1})
        try:
            for f in model.vars:
                self.each(f, V, lambda env, args: self.newvar(f, args, env))
            for f in model.cons:
                self.each(f, V, lambda env, args: self.newcons(f, env))
            o = V.ev(model.obj, {})
            self.obj = o if isinstance(o, Lin) else Lin(o)
        finally:
            V.varval = old

    def each(self, f, V, fn):
        def go(k, env, args):
            if k == len(f.bs):
                if V.ev(f.guard, env):
                    fn(env, args)
                return
            b, d = f.bs[k]
            for v in V.dom(d, env, None):
                e = dict(env)
                e[b] = v
                go(k + 1, e, args + (v,))
        go(0, {}, ())

    def bnd(self, t, env):
        if t is INF:
            return 10 ** 9
        if t is neg(INF):
            return -10 ** 9
        v = self.V.ev(t, env)
        if isinstance(v, Lin):
            raise Undef("bound")
        return v

    def newvar(self, f, args, env):
        lo, hi = self.bnd(f.lb, env), self.bnd(f.ub, env)
        lo = max(int(lo), -2)
        hi = min(int(hi), lo + 2)
        self.vars[(f.label, args)] = (lo, hi)

    def newcons(self, f, env):
        row = self.V.ev(f.row, env)
        row = row if isinstance(row, Lin) else Lin(row)
        lo, hi = self.bnd(f.lb, env), self.bnd(f.ub, env)
        if lo > -10 ** 8:
            self.cons.append((f.label, row * -1 + lo))
        if hi < 10 ** 8:
            self.cons.append((f.label, row + -hi))
        ex = f.model_extra
        if ex is not K1:
            self.funs.append((f.label, ex, env, self.refs(ex, env)))

    def refs(self, t, env):
        """Variables t may look at."""
        V, seen = self.V, set()
        for k in range(6):
            rnd = random.Random(k)

            def look(label, args, V_):
                seen.add((label, args))
                return k if k < 2 else rnd.randint(0, 1)
            old, V.varval = V.varval, look
            try:
                V.ev(t, env)
            finally:
                V.varval = old
        return seen

    def fun(self, t, env, a):
        V = self.V

        def val(label, args, V_):
            if (label, args) not in a:
                raise Undef("unknown variable")
            return a[label, args]
        old, V.varval = V.varval, val
        try:
            return bool(V.ev(t, env))
        finally:
            V.varval = old

    def holds(self, a):
        """Does the assignment satisfy every constraint?"""
        for _, l in self.cons:
            if l.value(a) > 0:
                return False
        return all(self.fun(t, env, a) for _, t, env, _ in self.funs)

    def search(self, rnd, extra=(), bad=None, limit=2500):
        """A random assignment satisfying the constraints (and the extra ones l <= 0), or None.
        bad: index of a condition in other.funs that must fail."""
        cons = [l for _, l in self.cons] + list(extra)
        by = {}
        for k, l in enumerate(cons):
            for v, w in l.m.items():
                if w:
                    by.setdefault(v, []).append(k)
        low = []
        for l in cons:
            s = l.c
            for v, w in l.m.items():
                if v not in self.vars:
                    raise Undef("unknown variable")
                lo, hi = self.vars[v]
                s += min(w * lo, w * hi)
            low.append(s)
        if any(s > 0 for s in low):
            return None
        fby = {}
        pend = []
        for k, (_, t, env, rs) in enumerate(self.funs):
            pend.append(len(rs))
            for v in rs:
                fby.setdefault(v, []).append(k)
        # variables of small constraints first, then random
        order = list(self.vars)
        rnd.shuffle(order)
        order.sort(key=lambda v: -len(fby.get(v, ())) if rnd.random() < .5 else 0)
        a = {}
        steps = [0]
        dom = {v: list(range(lo, hi + 1)) for v, (lo, hi) in self.vars.items()}

        def choose():
            best, bv = None, None
            for v in order:
                if v in a:
                    continue
                ok = [x for x in dom[v] if feasible(v, x)]
                if best is None or len(ok) < len(best):
                    best, bv = ok, v
                    if len(ok) <= 1:
                        break
            return bv, best

        def feasible(v, x):
            lo, hi = self.vars[v]
            for k in by.get(v, ()):
                w = cons[k].m[v]
                if low[k] - min(w * lo, w * hi) + w * x > 0:
                    return False
            return True

        def go():
            steps[0] += 1
            if steps[0] > limit:
                raise Budget
            v, ok = choose()
            if v is None:
                return all(self.fun(t, env, a) for _, t, env, _ in self.funs)
            rnd.shuffle(ok)
            lo, hi = self.vars[v]
            for x in ok:
                a[v] = x
                for k in by.get(v, ()):
                    w = cons[k].m[v]
                    low[k] += w * x - min(w * lo, w * hi)
                good = True
                for k in fby.get(v, ()):
                    pend[k] -= 1
                    if pend[k] == 0 and good:
                        _, t, env, _ = self.funs[k]
                        good = self.fun(t, env, a)
                if good and go():
                    return True
                for k in fby.get(v, ()):
                    pend[k] += 1
                for k in by.get(v, ()):
                    w = cons[k].m[v]
                    low[k] -= w * x - min(w * lo, w * hi)
                del a[v]
            return False
        try:
            return dict(a) if go() else None
        except Budget:
            raise Undef("search limit")


def apart(c, s, rnd):
    """An assignment that satisfies exactly one of the two ground models, or None (none found)."""
    if set(c.vars) != set(s.vars):
        raise Undef("different variables")
    for one, two in ((s, c), (c, s)):
        have = {(l.c, frozenset(l.m.items())) for _, l in one.cons}
        todo = [l for _, l in two.cons if (l.c, frozenset(l.m.items())) not in have]
        rnd.shuffle(todo)
        for l in todo[:12]:
            # l <= 0 must fail
            try:
                a = one.search(rnd, [l * -1 + Fraction(1, 1000)])
            except Undef:
                continue
            if a is not None and not two.holds(a):
                return a, one is s
        if two.funs:
            for _ in range(6):
                try:
                    a = one.search(rnd)
                except Undef:
                    break
                if a is None:
                    break
                if not two.holds(a):
                    return a, one is s
            conds = {(t, tuple(sorted((str(k), str(v)) for k, v in env.items()))) for _, t, env, _ in one.funs}
            for _, t, env, rs in two.funs[:40]:
                if (t, tuple(sorted((str(k), str(v)) for k, v in env.items()))) in conds:
                    continue
                # force the condition to fail
                rs = sorted(rs, key=str)
                if len(rs) > 6:
                    continue
                for bits in range(2 ** len(rs)):
                    part = {v: (bits >> k) & 1 for k, v in enumerate(rs)}
                    try:
                        if any(v not in two.vars for v in rs) or two.fun(t, env, part):
                            continue
                        ex = []
                        for v, x in part.items():
                            ex += [Lin(-x, {v: 1}), Lin(x, {v: -1})]
                        a = one.search(rnd, ex)
                    except Undef:
                        continue
                    if a is not None and not two.holds(a):
                        return a, one is s
    return None


# ---------------------------------------------------------------- relaxed models
def simplex(A, b, c):
    """max c x, A x <= b, x >= 0 over the rationals (Bland's rule): x, or None if infeasible; unbounded: Undef."""
    m, n = len(A), len(c)
    T = [[Fraction(v) for v in A[i]] + [Fraction(int(i == j)) for j in range(m)] + [Fraction(b[i])] for i in range(m)]
    base = [n + i for i in range(m)]
    art = []
    N = n + m
    for i in range(m):
        if T[i][-1] < 0:
            T[i] = [-v for v in T[i]]
            art.append(i)
    for k, i in enumerate(art):
        for j in range(m):
            T[j].insert(N + k, Fraction(int(i == j)))
        base[i] = N + k
    W = N + len(art)

    def pivot(obj, width):
        # reduced costs for maximisation of obj
        z = list(obj) + [Fraction(0)] * (W + 1 - len(obj))
        for i in range(m):
            f = z[base[i]]
            if f:
                z = [p - f * q for p, q in zip(z, T[i])]
        steps = 0
        while True:
            j = next((j for j in range(width) if z[j] > 0), None)
            if j is None:
                return z
            r, best = None, None
            for i in range(m):
                if T[i][j] > 0:
                    q = T[i][-1] / T[i][j]
                    if best is None or q < best or q == best and base[i] < base[r]:
                        r, best = i, q
            if r is None:
                raise Undef("unbounded")
            p = T[r][j]
            T[r] = [v / p for v in T[r]]
            for i in range(m):
                if i != r and T[i][j]:
                    f = T[i][j]
                    T[i] = [a - f * q for a, q in zip(T[i], T[r])]
            f = z[j]
            z = [a - f * q for a, q in zip(z, T[r])]
            base[r] = j
            steps += 1
            if steps > 400:
                raise Undef("search limit")
    if art:
        z = pivot([Fraction(0)] * N + [Fraction(-1)] * len(art), W)
        if -z[-1] < 0:
            return None
        for i in range(m):
            if base[i] >= N:
                j = next((j for j in range(N) if T[i][j]), None)
                if j is None:
                    continue
                p = T[i][j]
                T[i] = [v / p for v in T[i]]
                for k in range(m):
                    if k != i and T[k][j]:
                        f = T[k][j]
                        T[k] = [a - f * q for a, q in zip(T[k], T[i])]
                base[i] = j
    pivot([Fraction(v) for v in c] + [Fraction(0)] * m, N)
    x = [Fraction(0)] * n
    for i in range(m):
        if base[i] < n:
            x[base[i]] = T[i][-1]
    return x


def relaxed(g, obj):
    """Best point of the relaxed model for the linear form obj, or None."""
    if g.funs:
        raise Undef("not linear")
    vs = list(g.vars)
    at = {v: k for k, v in enumerate(vs)}
    A, b = [], []

    def row(l):
        r = [0] * len(vs)
        rhs = -l.c
        for v, w in l.m.items():
            if v not in at:
                raise Undef("unknown variable")
            r[at[v]] += w
            rhs -= w * g.vars[v][0]
        return r, rhs
    for _, l in g.cons:
        r, rhs = row(l)
        A.append(r)
        b.append(rhs)
    for v in vs:
        lo, hi = g.vars[v]
        r = [0] * len(vs)
        r[at[v]] = 1
        A.append(r)
        b.append(hi - lo)
    x = simplex(A, b, row(obj)[0])
    return None if x is None else {v: x[at[v]] + g.vars[v][0] for v in vs}


def apart_relaxed(c, s):
    """A point that satisfies exactly one of the two relaxed models."""
    if set(c.vars) != set(s.vars):
        raise Undef("different variables")
    for one, two in ((s, c), (c, s)):
        have = {(l.c, frozenset(l.m.items())) for _, l in one.cons}
        for _, l in two.cons:
            if (l.c, frozenset(l.m.items())) in have:
                continue
            x = relaxed(one, l)
            if x is None:
                break
            if l.value(x) > 0:
                return x, one is s
    return None
