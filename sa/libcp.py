"""Models of CP-SAT, clocks, random choices and solver parameters for the summariser."""
from .exec import IterV
from .lib import Lib, INF, _Py, isnum
from .term import (T, K, K0, K1, NONE, BOT, S, F, Unsup, fresh, Forall, Exists, Sum, add, sub, mul, neg, le, ge, eq, ite,
                   land, lor, lnot, typeof, isk, mk, apply, VARRNG, show, subterms, FTY, rewrite, leaves)

CB = "CpSolverSolutionCallback"


class CpLib(Lib):
    def __init__(self, prog):
        super().__init__(prog)
        self.cb = []              # (solve number, solution number) of the enclosing callbacks
        self.clocks = {}

    # ------------------------------------------------------------ calls
    def more_ext(self, name, last, args, kw):
        if last == "CpModel":
            r = self.alloc("cpmodel")
            o = r.a[1]
            for n, v in (("offset", K0), ("sense", K0), ("epoch", K0), ("backend", K("cpsat")), ("nsolve", K0),
                         ("objexpr", K0)):
                self.cells[("attr", o, n)] = v
            return r
        if name in ("time.time", "time.perf_counter", "time.monotonic"):
            return self.clock()
        if name in ("random.shuffle", "numpy.random.shuffle"):
            return self.m_rng_shuffle(None, args[0])
        if name in ("random.choice", "random.randrange", "random.randint", "random.random"):
            return getattr(self, "m_rng_" + last)(None, *args)
        if CB in name:
            if last == "__init__":
                return NONE
            if last in ("Value", "BooleanValue"):
                return self.cbvalue(args[-1])
        if last in ("WeightedSum", "weighted_sum"):
            return self.wsum(*args, **kw)
        if last in ("Sum", "sum") and "LinearExpr" in name:
            return self.b_sum(args[0])
        if last in ("Term", "term") and "LinearExpr" in name:
            return mul(args[1], args[0])
        if last in ("seed",):
            return NONE
        return None

    def m_rng_shuffle(self, r, l):
        for _, x in leaves(l) if isinstance(l, T) else ():
            self.input_change(x, "shuffle")
        raise Unsup("shuffle")

    def call_ext(self, name, args, kw):
        if "LinearExpr" in name or CB in name:
            r = self.more_ext(name, name.split(".")[-1], args, kw)
            if r is not None:
                return r
        return super().call_ext(name, args, kw)

    def wsum(self, vs, cs):
        return self.b_sum(self.map1(lambda t: apply(lambda x: mul(x.a[1], x.a[2]), t), self.b_zip(vs, cs)))

    def map1(self, fn, it):
        return IterV("map", [_Py(lambda a: fn(a[0])), it])

    def clock(self):
        node = getattr(self, "node", None)
        k = self.clocks.setdefault(len(self.clocks), None)
        n = len(self.clocks)
        self.clocks[n] = k
        return F("clock", K(n), *self.loops)

    def draw(self, n):
        """A random number below n."""
        self.crash("choice from nothing", le(n, K0))
        k = K(self.tick("choice"))
        return apply(lambda x: K0 if x is K1 else F("choice", x, k, *self.loops), n)

    def m_rng_choice(self, r, l):
        if not isinstance(l, T):
            l = self.materialise(l)
        if l in self.pick:
            return self.pick[l]
        return self.get_item(l, self.draw(self.b_len(l)))

    def m_rng_randrange(self, r, a, b=None):
        if b is None:
            return self.draw(a)
        return add(a, self.draw(sub(b, a)))

    def m_rng_randint(self, r, a, b):
        return add(a, self.draw(add(sub(b, a), K1)))

    def m_rng_random(self, r):
        return F("uniform", K(self.tick("choice")), *self.loops)

    def tick(self, what):
        d = self.__dict__.setdefault("ticks", {})
        d[what] = d.get(what, 0) + 1
        return d[what]

    # ------------------------------------------------------------ attributes
    def ref_attr(self, o, name):
        if self.obj(o).kind == "cpsolver" and name == "parameters":
            key = ("attr", o.a[1], "parameters")
            v = self.cells.get(key)
            if v is None:
                v = self.alloc("ext")
                self.cells[key] = v
            return v
        return super().ref_attr(o, name)

    def inst_ext(self, o, name):
        if name in ("Value", "BooleanValue") and self.cb:
            return _Py(lambda a: self.cbvalue(a[0]))
        return super().inst_ext(o, name)

    # ------------------------------------------------------------ models
    def m_cpmodel_NewBoolVar(self, s, name=NONE):
        return self.new_var(s, K0, K1, K1)

    def m_cpmodel_NewIntVar(self, s, lo, hi, name=NONE):
        return self.new_var(s, lo, hi, K1)

    def m_cpmodel_NewConstant(self, s, v):
        return v

    def newcons(self, s, cond):
        r = self.alloc("cons")
        o = r.a[1]
        self.cells[("attr", o, "lb")] = neg(INF)
        self.cells[("attr", o, "ub")] = INF
        self.cells[("attr", o, "expr")] = K0
        self.cells[("attr", o, "cond")] = self.simp(cond)
        self.obj(r).tag = s
        self.changed(s)
        self.events.append(("newcons", (), self.pc, (s, r)))
        return r

    def lits(self, a):
        if len(a) == 1 and not (self.is_ref(a[0], "var") or self.islit(a[0])):
            return a[0]
        return self.newlist([((), K1, x) for x in a])

    def islit(self, x):
        return isinstance(x, T) and (x.op in ("p", "k") or typeof(x)[0] == "int" or self.is_ref(x, "var"))

    def m_cpmodel_AddBoolAnd(self, s, *a):
        return self.newcons(s, self.quant(self.onelit(self.lits(a)), False))

    def m_cpmodel_AddBoolOr(self, s, *a):
        return self.newcons(s, self.quant(self.onelit(self.lits(a)), True))

    m_cpmodel_AddAtLeastOne = m_cpmodel_AddBoolOr

    def onelit(self, it):
        return self.map1(lambda a: ge(a, K1), it)

    def m_cpmodel_AddImplication(self, s, a, b):
        return self.newcons(s, lor(le(a, K0), ge(b, K1)))

    def m_cpmodel_AddExactlyOne(self, s, *a):
        t = self.b_sum(self.lits(a))
        return self.newcons(s, land(le(t, K1), ge(t, K1)))

    def m_cpmodel_AddAtMostOne(self, s, *a):
        return self.newcons(s, le(self.b_sum(self.lits(a)), K1))

    def m_cpmodel_AddLinearConstraint(self, s, e, lo, hi):
        return self.newcons(s, land(le(lo, e), le(e, hi)))

    def m_cpmodel_Add(self, s, c):
        if not isinstance(c, T):
            raise Unsup("constraint")
        return self.newcons(s, c)

    def m_cons_OnlyEnforceIf(self, c, *ls):
        g = self.quant(self.onelit(self.lits(ls)), False)
        v = self.getattr_cell(c, "cond")
        self.changed(self.solver_of(c))
        self.setattr_cell(c, "cond", lor(lnot(g), v))
        return c

    def m_cons_WithName(self, c, n):
        return c

    def m_var_Not(self, v):
        return sub(K1, v)

    def m_int_Not(self, v):
        return sub(K1, v)

    m_real_Not = m_bool_Not = m_int_Not
    m_var_negated = m_int_negated = m_real_negated = m_var_Not

    def m_var_Index(self, v):
        return F("vidx", v)

    def m_cpmodel_Maximize(self, s, e):
        self.changed(s)
        self.sset(s, "objexpr", e)
        self.sset(s, "sense", K1)
        return NONE

    def m_cpmodel_Minimize(self, s, e):
        self.m_cpmodel_Maximize(s, e)
        self.sset(s, "sense", K(-1))
        return NONE

    def m_cpmodel_ClearObjective(self, s):
        self.changed(s)
        self.sset(s, "objexpr", K0)
        self.sset(s, "sense", K0)
        return NONE

    def m_cpmodel_ClearHints(self, s):
        return NONE

    # ------------------------------------------------------------ solving
    def m_cpsolver_Solve(self, s, model, callback=NONE):
        return self.cp_solve(s, model, callback)

    m_cpsolver_SolveWithSolutionCallback = m_cpsolver_solve = m_cpsolver_Solve

    def cp_solve(self, s, model, callback=NONE):
        if self.loops:
            raise Unsup("solver called inside a loop")
        if not self.is_ref(model, "cpmodel"):
            raise Unsup("unknown model")
        self.nsolve += 1
        n = self.solve_number(model)
        self.solves.append(dict(n=n, solver=s, cells=dict(self.cells), events=list(self.events), pc=self.pc, src=model,
                                kind="cp"))
        if s is not None:
            self.setattr_cell(s, "epoch", n)
        if callback is not NONE and callback is not None:
            if not self.is_ref(callback, "inst"):
                raise Unsup("callback")
            f = self.get_attr(callback, "on_solution_callback")

            def one(k):
                self.cb.append((n, k))
                try:
                    self.call(f, [], {})
                finally:
                    self.cb.pop()
            self.iterate(self.b_range(F("nsol", n)), one)
        return F("status", n)

    def valof(self, e, fn):
        """e with every variable replaced by its value."""
        def hook(x):
            if x.op == "f" and x.a[0] == "ref" and x.a[1] in self.objs and self.objs[x.a[1]].kind == "var":
                return fn(x)
            return None
        return rewrite(e, hook)

    def cbvalue(self, e):
        if not self.cb:
            raise Unsup("solution value outside of a callback")
        n, k = self.cb[-1]
        return self.valof(e, lambda v: F("cbval", n, k, v))

    def m_cpsolver_Value(self, s, e):
        n = self.sget(s, "epoch")
        return self.valof(e, lambda v: F("isolval", n, v))

    m_cpsolver_BooleanValue = m_cpsolver_Value

    def m_cpsolver_ObjectiveValue(self, s):
        return F("objval", self.sget(s, "epoch"))

    def m_cpsolver_BestObjectiveBound(self, s):
        return F("objbound", self.sget(s, "epoch"))

    def m_cpsolver_WallTime(self, s):
        return F("wall", self.sget(s, "epoch"))

    # ------------------------------------------------------------ parameters
    def m_ext_SetIntegerParam(self, o, *a):
        return NONE

    m_ext_SetDoubleParam = m_ext_SetIntegerParam

    def m_solver_SetSolverSpecificParametersAsString(self, s, p):
        return K1


def _cb_ty(t):
    r = t.a[3]
    lo, hi = VARRNG.get(r.a[1], (None, None)) if r.op == "f" and r.a[0] == "ref" else (None, None)
    return ("int", lo, hi)


FTY["cbval"] = _cb_ty
FTY["nsol"] = ("int", 0, None)
FTY["clock"] = ("real",)
FTY["choice"] = lambda t: ("int", 0, t.a[1].a[0] - 1 if isnum(t.a[1]) else None)
FTY["uniform"] = ("real",)
FTY["bitand"] = ("int", 0, None)
