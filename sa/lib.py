"""Models of the library calls the package uses (builtins, numpy, OR-tools, scikit-learn) for the summariser."""
import ast
import math
from fractions import Fraction

from .exec import (Interp, FuncV, ClsV, ExtV, MethV, PyVal, RangeV, IterV, GenV, Seq, seqlen, MISSING, DEAD, UNDEF, vsubst)
from .term import (infeasible, inhabited, T, K, K0, K1, NONE, BOT, S, F, Unsup, fresh, BD, Sum, Exists, First, add, sub, mul, neg, le, lt, ge,
                   gt, eq, ite, land, lor, lnot, restrict, leaves, where, truth, subst, typeof, isnum, isk, atom, mk,
                   apply, VARRNG, TY, LENS, show, terms, subterms, FTY, SIMP, rng)

INF = mk("s", "inf")
TY[INF] = ("real",)

CONSTS = {
    "OPTIMAL": K(0), "FEASIBLE": K(1), "INFEASIBLE": K(2), "UNBOUNDED": K(3), "ABNORMAL": K(4), "NOT_SOLVED": K(6),
}
CPCONSTS = {"UNKNOWN": K(0), "MODEL_INVALID": K(1), "FEASIBLE": K(2), "INFEASIBLE": K(3), "OPTIMAL": K(4)}


def isinf(t):
    return t is INF


def isneginf(t):
    return t is neg(INF)


class Lib(Interp):
    IGNORED = {"builtins.print", "warnings.warn", "logging.info", "logging.debug", "logging.warning"}

    def __init__(self, prog):
        super().__init__(prog)
        self.solves = []          # snapshots
        self.varobj = {}          # oid -> (kind info)
        self.arglens = {}

    # ------------------------------------------------------------ constants
    def ext_const(self, name):
        last = name.split(".")[-1]
        if "pywraplp" in name and last in CONSTS:
            return CONSTS[last]
        if ("cp_model" in name or "CpSolver" in name) and last in CPCONSTS:
            return CPCONSTS[last]
        if name in ("numpy.inf", "math.inf", "numpy.Inf"):
            return INF
        if name == "sys.maxsize":
            return K(2 ** 63 - 1)
        if name in ("cp_model.INT32_MAX",) or last == "INT32_MAX":
            return K(2 ** 31 - 1)
        return None

    def ignored_ext(self, name):
        return name in self.IGNORED

    # ------------------------------------------------------------ builtins and modules
    def call_ext(self, name, args, kw):
        last = name.split(".")[-1]
        if name.startswith("builtins."):
            f = getattr(self, "b_" + last, None)
            if f is not None:
                return f(*args, **kw)
            if last in ("ValueError", "Exception", "RuntimeError", "TypeError", "AssertionError"):
                return mk("s", "<exception>")
            raise Unsup("call of %s" % last)
        if name.startswith(("numpy.", "math.")):
            f = getattr(self, "np_" + last, None) or (getattr(self, "b_" + last, None) if name.startswith("numpy.") else None)
            if f is not None:
                return f(*args, **kw)
        if name.endswith("pywraplp.Solver.CreateSolver") or name.endswith("pywraplp.Solver"):
            return self.new_solver(args[0] if args else NONE)
        if name == "random.Random":
            return self.alloc("rng")
        if last == "CpSolver":
            return self.alloc("cpsolver")
        if last in ("MPSolverParameters",):
            return self.alloc("ext")
        if last == "Parse":
            return K1
        if last == "MPModelProto":
            r = self.alloc("proto")
            return r
        if last in ("check_array", "check_X_y"):
            return self.x_check(last, args, kw)
        if last == "check_is_fitted":
            self.events.append(("fittedcheck", (), self.pc, (args[0],)))
            return NONE
        if name == "itertools.combinations" or name == "builtins.combinations":
            return self.combos(args)
        if last == "int2ba":
            return self.int2ba(args, kw)
        if name == "copy.copy" or name == "copy.deepcopy":
            v = args[0]
            if self.is_ref(v, "list") or (isinstance(v, T) and typeof(v)[0] == "list"):
                return self.b_list(v)
        r = self.more_ext(name, last, args, kw)
        if r is not None:
            return r
        raise Unsup("call of %s" % name)

    def more_ext(self, name, last, args, kw):
        return None

    def x_check(self, last, args, kw):
        if last == "check_X_y":
            return self.mktuple([args[0], args[1]])
        return args[0]

    def b_len(self, v):
        if isinstance(v, (IterV, GenV, RangeV)):
            if isinstance(v, RangeV):
                return ite(gt(v.b, v.a), sub(v.b, v.a), K0) if v.step == 1 else self.bad("len")
            if isinstance(v, IterV) and v.kind in ("keys", "values", "items"):
                return seqlen(Seq(self.iter_segs(v)))
            v = self.materialise(v)
        if v.op == "d":
            return self.by_case(v, self.b_len)
        if self.is_ref(v, "list"):
            return self.simp(seqlen(self.seq(v)))
        if self.is_ref(v, "set") or self.is_ref(v, "dict"):
            return self.simp(seqlen(Seq(self.iter_segs(v))))
        if self.is_ref(v):
            raise Unsup("len of an object")
        ty = typeof(v)
        if ty[0] == "set":
            return self.simp(seqlen(Seq(self.iter_segs(v))))
        if ty[0] in ("list", "arr", "arr2", "tuple", "str", "dict"):
            return F("len", v)
        raise Unsup("len of %s" % show(v))

    def bad(self, w):
        raise Unsup(w)

    def b_range(self, *a):
        for x in a:
            if not isinstance(x, T):
                raise Unsup("range argument")
        if len(a) == 1:
            return RangeV(K0, a[0])
        if len(a) == 2:
            return RangeV(a[0], a[1])
        if isnum(a[2]) and a[2].a[0] == 1:
            return RangeV(a[0], a[1])
        if isnum(a[2]) and a[2].a[0] == -1:
            return RangeV(a[0], a[1], -1)
        raise Unsup("range with a step")

    def b_enumerate(self, it, start=K0):
        return IterV("enumerate", [it, start])

    def b_zip(self, *its):
        return IterV("zip", list(its))

    def b_map(self, f, it):
        return IterV("map", [f, it])

    def b_filter(self, f, it):
        return IterV("filter", [f, it])

    def b_reversed(self, it):
        return IterV("reversed", [it])

    def b_list(self, it=None):
        if it is None:
            return self.newlist([])
        return self.newlist(self.force(self.iter_segs(it)))

    def b_tuple(self, it=None):
        if it is None:
            return self.mktuple([])
        if isinstance(it, T) and not self.is_ref(it) and typeof(it)[0] == "list":
            return it
        segs = self.force(self.iter_segs(it))
        if all(not bs and g is K1 for bs, g, e in segs):
            return self.mktuple([e for _, _, e in segs])
        return self.newlist(segs)

    def b_set(self, it=None):
        out = self.newset()
        if it is not None:
            u = self.set_univ(it) if isinstance(it, T) and self.setlike(it) else None
            if isinstance(it, T) and self.setlike(it):
                return self.set_of(lambda x: self.set_memb(x, it), u)
            self.iterate(it, lambda v: self.set_add(out, v))
        return out

    b_frozenset = b_set

    def b_dict(self, *a, **kw):
        if a or kw:
            raise Unsup("dict()")
        return self.alloc("dict")

    def b_sorted(self, it, key=None, reverse=None):
        if key is None and reverse is None and isinstance(it, T) and it.op != "d" and self.setlike(it):
            segs = self.iter_segs(it)
            if len(segs) == 1 and len(segs[0][0]) == 1:
                (b, d), = segs[0][0]
                e = segs[0][2]
                e = e() if callable(e) else e
                if d[0] == "R" and e is b:      # members in increasing order
                    return self.newlist(self.force(segs))
        if key is None and reverse is None and isinstance(it, T) and self.is_ref(it, "list"):
            segs = self.seq(it).segs
            if all(bs == () and g is K1 and isinstance(e, T) and isnum(e) for bs, g, e in segs):
                return self.newlist(sorted(segs, key=lambda s: s[2].a[0]))
        raise Unsup("sorted")

    def b_sum(self, it, start=K0):
        tot = start
        for bs, g, e in self.iter_segs(it):
            if bs == "tail":
                raise Unsup("sum over a list under construction")
            e = e() if callable(e) else e
            if bs and isinstance(e, T):
                e = self.simp(inhabited(e, bs[-1][1]))
            v = ite(g, e, K0)
            for b, d in reversed(bs):
                v = Sum(b, d, v)
            tot = add(tot, v)
        return self.simp(tot)

    def quant(self, it, isany):
        r = K0
        for bs, g, e in self.iter_segs(it):
            if bs == "tail":
                raise Unsup("quantifier over a list under construction")
            e = e() if callable(e) else e
            c = self.truthy(e)
            v = land(g, c if isany else lnot(c))
            for b, d in reversed(bs):
                v = Exists(b, d, v)
            r = lor(r, v)
        return self.simp(r if isany else lnot(r))

    def b_any(self, it):
        return self.quant(it, True)

    def b_all(self, it):
        return self.quant(it, False)

    def minmax(self, name, args, kw):
        if len(args) == 1:
            v = args[0]
            segs = self.force(self.iter_segs(v))
            if all(not bs and g is K1 for bs, g, e in segs) and segs:
                args = [e for _, _, e in segs]
            else:
                return F(name + "of", self.seqterm(segs))
        r = args[0]
        for x in args[1:]:
            if not isinstance(x, T) or not isinstance(r, T):
                raise Unsup(name)
            c = le(r, x)
            if name == "max":
                r = ite(c, x, r)
            else:
                r = ite(c, r, x)
        return r

    def seqterm(self, segs):
        """A list as an order-insensitive term is not available; only a single full segment is."""
        raise Unsup("extremum of a computed list")

    def b_max(self, *a, **kw):
        return self.minmax("max", list(a), kw)

    def b_min(self, *a, **kw):
        return self.minmax("min", list(a), kw)

    def b_abs(self, x):
        if x.op == "f" and x.a[0] == "dual":
            return F("abs", x)
        return F("abs", x)

    np_abs = b_abs
    np_fabs = b_abs

    def b_int(self, x=K0):
        return apply(lambda y: y if typeof(y)[0] == "int" else F("int", y), x)

    def b_float(self, x=K0):
        return apply(lambda y: F("float", y) if typeof(y)[0] == "any" and y.op == "s" else y, x)

    def b_bool(self, x=K0):
        return self.truthy(x)

    def b_str(self, *a):
        return F("strf", *[x for x in a if isinstance(x, T)])

    def b_round(self, x, n=None):
        return F("round", x) if n is None else F("roundn", x, n)

    def b_isinstance(self, *a):
        raise Unsup("isinstance")

    def b_hasattr(self, o, n):
        if self.is_ref(o, "inst"):
            nm = n.a[0][1:]
            if ("attr", o.a[1], nm) in self.cells or self.prog.method(self.obj(o).cls, nm):
                return K1
            return K0
        raise Unsup("hasattr")

    def b_getattr(self, o, n, *d):
        if isk(n) and isinstance(n.a[0], str):
            if d and self.b_hasattr(o, n) is K0:
                return d[0]
            return self.get_attr(o, n.a[0][1:])
        raise Unsup("getattr")

    def b_setattr(self, o, n, v):
        if isk(n) and isinstance(n.a[0], str):
            self.set_attr(o, n.a[0][1:], v)
            return NONE
        raise Unsup("setattr")

    def b_super(self, *a):
        raise Unsup("super")

    # numpy / math
    def np_floor(self, x):
        return F("floor", x)

    def np_ceil(self, x):
        return F("ceil", x)

    def np_log2(self, x):
        if x.op == "f" and x.a[0] == "pow2":
            return x.a[1]
        return F("log2", x)

    def np_sqrt(self, x):
        return F("sqrt", x)

    def np_array(self, v, dtype=None):
        return v

    np_asarray = np_array

    def np_zeros(self, n, dtype=None):
        if isinstance(n, T) and n.op == "f" and n.a[0] == "tuple":
            if len(n.a) != 2:
                raise Unsup("zeros")
            n = n.a[1]
        return self.newlist([self.const_seg(n, K0)])

    def np_ones(self, n, dtype=None):
        return self.newlist([self.const_seg(n, K1)])

    def np_empty(self, n, dtype=None):
        return self.newlist([self.const_seg(n, mk("s", "<uninitialised>"))])

    def np_full(self, n, v, dtype=None):
        return self.newlist([self.const_seg(n, v)])

    def np_sum(self, v):
        return self.b_sum(v)

    def np_count_nonzero(self, v):
        return self.b_sum(IterV("map", [_Py(lambda a: self.truthy(a[0])), v]))

    def np_all(self, v):
        return self.b_all(v)

    def np_any(self, v):
        return self.b_any(v)

    def m_list_all(self, o):
        return self.b_all(o)

    def m_list_any(self, o):
        return self.b_any(o)

    def m_list_max(self, o):
        return self.b_max(o)

    def m_list_min(self, o):
        return self.b_min(o)

    # combinations of a range: an unspecified enumeration of all of them
    def combos(self, args):
        it, k = args
        if not isinstance(it, RangeV) or it.a is not K0 or it.step != 1:
            raise Unsup("combinations of something other than range(n)")
        n = F("ncomb", it.b, k)
        i = fresh(("R", n))
        e = F("comb", it.b, k, i)
        return self.newlist([(((i, ("R", n)),), K1, e)])

    def int2ba(self, args, kw):
        n = args[0]
        if not isnum(n):
            raise Unsup("int2ba of a symbol")
        if kw or len(args) > 1:
            raise Unsup("int2ba options")
        bits = bin(n.a[0])[2:]
        return self.newlist([((), K1, K(int(c))) for c in bits])

    def slice(self, o, s):
        if s.step is not None and s.lower is None and s.upper is None and self.is_ref(o, "list"):
            st = self.ev(s.step)
            segs = self.seq(o).segs
            if st is K(-1):
                return self.newlist(self.reverse_segs(segs))
        return super().slice(o, s)

    # ------------------------------------------------------------ methods
    def call_method(self, o, name, args, kw):
        if isinstance(o, T) and o.op == "d":
            return self.by_case(o, lambda x: self.call_method(x, name, args, kw))
        if self.is_ref(o):
            k = self.obj(o).kind
            f = getattr(self, "m_%s_%s" % (k, name), None)
            if f is not None:
                return f(o, *args, **kw)
            raise Unsup("method %s of a %s" % (name, k))
        if isinstance(o, T):
            if typeof(o)[0] == "list" and name in self.MUTATORS:
                self.mutates(o, name, *args)
                raise Unsup("%s of an input list" % name)
            if o.op == "f" and o.a[0] == "objv":
                return getattr(self, "obj_" + name, self.nometh(name))(o.a[1], *args, **kw)
            ty = typeof(o)[0]
            f = getattr(self, "m_%s_%s" % ({"arr": "list", "arr2": "list"}.get(ty, ty), name), None)
            if f is not None:
                return f(o, *args, **kw)
        if o is NONE:
            self.crash("method %s of None" % name)
            return K0
        raise Unsup("method %s of %s" % (name, show(o) if isinstance(o, T) else o))

    def nometh(self, name):
        def f(*a, **k):
            raise Unsup("method %s" % name)
        return f

    MUTATORS = ("append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "__setitem__", "__delitem__")

    def mutates(self, o, what, *data):
        self.events.append(("mutate", (), self.pc, (what, o) + tuple(x for x in data if isinstance(x, T))))

    def m_list_append(self, l, v):
        if not isinstance(v, T):
            v = self.materialise(v)
        if not self.is_ref(l):
            self.mutates(l, "append", v)
            raise Unsup("append to an input list")
        self.append(l, [((), K1, v)])
        return NONE

    def m_list_extend(self, l, v):
        if not self.is_ref(l):
            self.mutates(l, "extend")
            raise Unsup("extension of an input list")
        self.list_extend(l, v)
        return NONE

    def m_list_insert(self, l, i, v):
        if not self.is_ref(l):
            self.mutates(l, "insert", v)
            raise Unsup("insertion into an input list")
        if i is not K0:
            raise Unsup("insertion")
        c = self.rel(l.a[1], land(self.same(l.a[1], l.a[2:]), self.pc))
        self.cells[("list", l.a[1])] = Seq((((), c, v),) + tuple(self.seq(l).segs))
        return NONE

    def m_list_reverse(self, l):
        if not self.is_ref(l) or self.pc is not K1:
            self.mutates(l, "reverse")
            raise Unsup("reversal")
        self.setseq(l, Seq(self.reverse_segs(self.seq(l).segs)))
        return NONE

    def m_list_remove(self, l, v):
        """From a list without repetitions."""
        if not self.is_ref(l):
            self.mutates(l, "remove")
            raise Unsup("removal from an input list")
        seq = self.seq(l)
        if self.same(l.a[1], l.a[2:]) is not K1 or len(seq.segs) != 1 or len(seq.segs[0][0]) != 1:
            raise Unsup("removal from a computed list")
        bs, g, e = seq.segs[0]
        if not (isinstance(e, T) and e.op == "f" and e.a[0] == "sel" and e.a[2] is bs[0][0]
                and "distinct" in (typeof(e.a[1]) + ((),) * 3)[2]):
            raise Unsup("removal from a list that may contain repetitions")
        self.crash("value not in list", lnot(self.contains(l, v)))
        self.cells[("list", l.a[1])] = Seq([(bs, land(g, lnot(land(self.pc, eq(e, v)))), e)])
        return NONE

    def m_list_copy(self, l):
        return self.b_list(l)

    def m_list_index(self, l, v):
        if self.is_ref(l):
            raise Unsup("index in a computed list")
        return F("pos", l, v)

    def m_list_count(self, l, v):
        return self.b_sum(IterV("map", [_Py(lambda a: self.equal(a[0], v)), l]))

    def m_list_tolist(self, l):
        return l

    def m_list_sum(self, l):
        return self.b_sum(l)

    def m_set_add(self, s, v):
        self.set_add(s, v)
        return NONE

    def m_set_copy(self, s):
        return self.b_set(s)

    def m_set_update(self, s, it):
        self.iterate(it, lambda v: self.set_add(s, v))
        return NONE

    def m_set_intersection(self, s, *o):
        for x in o:
            s = self.set_op(ast.BitAnd(), s, self.asset(x))
        return s

    def m_set_union(self, s, *o):
        for x in o:
            s = self.set_op(ast.BitOr(), s, self.asset(x))
        return s

    def m_set_difference(self, s, *o):
        for x in o:
            s = self.set_op(ast.Sub(), s, self.asset(x))
        return s

    def m_set_intersection_update(self, s, o):
        self.set_inplace(s, self.asset(o), ast.BitAnd())
        return NONE

    def m_set_difference_update(self, s, o):
        self.set_inplace(s, self.asset(o), ast.Sub())
        return NONE

    def m_set_issubset(self, a, b):
        x = self.set_op(ast.Sub(), a, self.asset(b))
        return self.quant_none(x)

    def quant_none(self, s):
        n = seqlen(Seq(self.set_segs(s)))
        return le(n, K0)

    def asset(self, x):
        return x if isinstance(x, T) and self.setlike(x) else self.b_set(x)

    def m_dict_keys(self, d):
        return IterV("keys", [d])

    def m_dict_values(self, d):
        return IterV("values", [d])

    def m_dict_items(self, d):
        return IterV("items", [d])

    def m_dict_get(self, d, k, default=NONE):
        if not self.is_ref(d):
            raise Unsup("get of an input dictionary")
        h = self.dict_has(d, k)
        if h is K0:
            return default
        return ite(h, self.dict_get(d, k), default)

    def m_labelenc_inverse_transform(self, o, v):
        return self.mktuple([K("decoded"), v])

    # ------------------------------------------------------------ linear solver
    def new_solver(self, backend):
        r = self.alloc("solver")
        o = r.a[1]
        for n, v in (("offset", K0), ("sense", K0), ("epoch", K0), ("backend", backend), ("nsolve", K0)):
            self.cells[("attr", o, n)] = v
        return r

    def sset(self, s, n, v):
        self.setattr_cell(s, n, v)

    def sget(self, s, n):
        return self.simp(self.getattr_cell(s, n))

    def changed(self, s):
        """Marks the model as changed since its last solve."""
        c = self.obj(s)
        if self.cells.get(("attr", s.a[1], "epoch")) is not K0:
            self.setattr_cell(s, "epoch", K0)

    def new_var(self, s, lo, hi, integer, name=NONE):
        r = self.keyed_new(lo, hi, integer, s) if self.loops else None
        if r is not None:
            self.changed(s)
            self.extended(s)
            self.events.append(("newvar", (), self.pc, (s, r)))
            return r
        r = self.alloc("var")
        o = r.a[1]
        self.cells[("attr", o, "lb")] = lo
        self.cells[("attr", o, "ub")] = hi
        self.cells[("attr", o, "int")] = integer
        if isnum(lo) or isnum(hi):
            VARRNG[o] = (lo.a[0] if isnum(lo) else None, hi.a[0] if isnum(hi) else None)
        self.obj(r).tag = s
        self.changed(s)
        self.extended(s)
        self.events.append(("newvar", (), self.pc, (s, r)))
        return r

    def m_solver_infinity(self, s):
        return INF

    m_solver_Infinity = m_solver_infinity

    def m_solver_SetNumThreads(self, s, n):
        return K1

    def m_solver_EnableOutput(self, s):
        return NONE

    def m_solver_SuppressOutput(self, s):
        return NONE

    def m_solver_SetTimeLimit(self, s, n):
        return NONE

    def m_solver_set_time_limit(self, s, n):
        return NONE

    def m_solver_IntVar(self, s, lo, hi, name=NONE):
        return self.new_var(s, lo, hi, K1)

    def m_solver_NumVar(self, s, lo, hi, name=NONE):
        return self.new_var(s, lo, hi, K0)

    def m_solver_Var(self, s, lo, hi, integer, name=NONE):
        return self.new_var(s, lo, hi, integer)

    def m_solver_BoolVar(self, s, name=NONE):
        return self.new_var(s, K0, K1, K1)

    def m_solver_Constraint(self, s, *a):
        lo, hi = neg(INF), INF
        num = [x for x in a if typeof(x)[0] != "str"]
        if len(num) == 2:
            lo, hi = num
        elif num:
            raise Unsup("constraint arguments")
        r = self.alloc("cons")
        o = r.a[1]
        self.cells[("attr", o, "lb")] = lo
        self.cells[("attr", o, "ub")] = hi
        self.cells[("attr", o, "expr")] = K0
        self.obj(r).tag = s
        self.changed(s)
        self.extended(s)
        self.events.append(("newcons", (), self.pc, (s, r)))
        return r

    m_solver_RowConstraint = m_solver_Constraint

    def m_solver_Add(self, s, c, name=NONE):
        raise Unsup("solver.Add")

    def m_solver_Objective(self, s):
        return mk("f", "objv", s)

    def extended(self, s):
        if self.loops and self.listed.get(s) is self.loops[0]:
            raise Unsup("model listed inside a loop")

    def members(self, s, kind, frozen=False):
        """Everything created so far, in order of creation."""
        if self.loops and not frozen:       # the loop may not extend the model then
            if any(e[0] in ("newvar", "newcons") and e[3][0] is s for evs in self.past[1:] + [self.events] for e in evs):
                raise Unsup("model listed inside a loop")
            self.listed[s] = self.loops[0]
        out = []
        for k, bs, g, d in [e for evs in self.past for e in evs] + self.events:
            if k == kind and d[0] is s:
                out.append((bs, g, d[1]))
        return out

    def m_solver_NumVariables(self, s):
        return self.simp(seqlen(Seq(self.members(s, "newvar"))))

    def m_solver_NumConstraints(self, s):
        return self.simp(seqlen(Seq(self.members(s, "newcons"))))

    def m_solver_variables(self, s):
        src = self.loaded_from(s)
        return self.newlist(self.members(src, "newvar"))

    def m_solver_constraints(self, s):
        src = self.loaded_from(s)
        return self.newlist(self.members(src, "newcons"))

    def loaded_from(self, s):
        v = self.cells.get(("attr", s.a[1], "copyof"))
        return v if v is not None else s

    def m_solver_variable(self, s, i):
        return apply(lambda x: self.deref(s, x, "vidx", "newvar"), i)

    def m_solver_constraint(self, s, i):
        return apply(lambda x: self.deref(s, x, "cidx", "newcons"), i)

    def deref(self, s, x, fn, ev):
        if x.op == "f" and x.a[0] == fn:
            return x.a[1]
        if x is MISSING or x is BOT or x is DEAD or x is NONE:
            return x
        if typeof(x)[0] == "int":
            src = self.loaded_from(s)
            segs = self.members(src, ev, src is not s)
            return self.seq_get(Seq(segs), x)
        raise Unsup("model element by index %s" % show(x))

    def m_var_index(self, v):
        return F("vidx", v)

    def m_cons_index(self, c):
        return F("cidx", c)

    def m_var_name(self, v):
        return F("strf", v)

    m_cons_name = m_var_name

    def solver_of(self, r):
        return self.obj(r).tag

    def coefcell(self, c, v):
        co, vo = c.a[1], v.a[1]
        key = ("coef", co, vo)
        kf = self.coefformals(co, vo)
        return key, kf

    def coefformals(self, co, vo):
        k = ("coeff", co, vo)
        r = self.symbase.get(k)
        if r is None:
            r = self.symbase[k] = tuple(fresh(BD.get(p), "k") for p in self.objs[vo].params)
        return r

    def formals(self, cell):
        if cell[0] == "coef":
            return self.params_of(cell[1]) + self.coefformals(cell[1], cell[2])
        if cell[0] == "ocoef":
            return self.coefformals("obj", cell[2])
        return super().formals(cell)

    def m_cons_SetCoefficient(self, c, v, x):
        if isinstance(v, T) and v.op == "d":
            pc0 = self.pc
            for cc, l in leaves(v):
                self.pc = pc0
                self.pc = land(pc0, self.simp(cc))
                if self.pc is not K0 and l not in (BOT, MISSING):
                    self.m_cons_SetCoefficient(c, l, x)
            self.pc = pc0
            return NONE
        if not self.is_ref(v, "var"):
            if v is NONE:
                self.crash("constraint coefficient of None")
                return NONE
            raise Unsup("coefficient of %s" % show(v))
        key, kf = self.coefcell(c, v)
        self.changed(self.solver_of(c))
        self.wr(key, c.a[1], c.a[2:], x, kf, v.a[2:], init=K0)
        return NONE

    def m_cons_GetCoefficient(self, c, v):
        key, kf = self.coefcell(c, v)
        r = self.rd(key, c.a[1], c.a[2:], kf, v.a[2:])
        return K0 if r is UNDEF else self.simp(r)

    def m_cons_SetBounds(self, c, lo, hi):
        self.changed(self.solver_of(c))
        self.setattr_cell(c, "lb", lo)
        self.setattr_cell(c, "ub", hi)
        return NONE

    def m_cons_SetLb(self, c, x):
        self.changed(self.solver_of(c))
        self.setattr_cell(c, "lb", x)
        return NONE

    def m_cons_SetUb(self, c, x):
        self.changed(self.solver_of(c))
        self.setattr_cell(c, "ub", x)
        return NONE

    m_var_SetBounds, m_var_SetLb, m_var_SetUb = m_cons_SetBounds, m_cons_SetLb, m_cons_SetUb

    def m_var_SetInteger(self, v, x):
        self.changed(self.solver_of(v))
        self.setattr_cell(v, "int", x)
        return NONE

    def m_cons_Clear(self, c):
        raise Unsup("constraint cleared")

    def m_cons_dual_value(self, c):
        s = self.solver_of(c)
        e = self.epoch(s)
        if e is not K0:
            for x in subterms(e):
                if x.op == "k" and isnum(x):
                    pass
        return F("dual", e, c)

    m_cons_DualValue = m_cons_dual_value

    def epoch(self, s):
        return self.sget(s, "epoch")

    def m_var_solution_value(self, v):
        s = self.solver_of(v)
        e = self.epoch(self.via(s))
        b = self.cells.get(("attr", self.via(s).a[1], "backend"))
        if self.cells.get(("attr", v.a[1], "int")) is K1 and isinstance(b, T) and isk(b) and \
                str(b.a[0])[1:].lower() in MIPS:
            return F("isolval", e, v)
        return F("solval", e, v)

    m_var_SolutionValue = m_var_solution_value

    def via(self, s):
        """The solver whose solution is being read: a copy of the model hands out the original's variables."""
        k = self.cells.get(("attr", s.a[1], "lastcopy"))
        return s if k is None else k

    def m_var_ReducedCost(self, v):
        return F("redcost", self.epoch(self.solver_of(v)), v)

    def obj_SetCoefficient(self, s, v, x):
        if isinstance(v, T) and v.op == "d":
            pc0 = self.pc
            for cc, l in leaves(v):
                self.pc = pc0
                self.pc = land(pc0, self.simp(cc))
                if self.pc is not K0 and l not in (BOT, MISSING):
                    self.obj_SetCoefficient(s, l, x)
            self.pc = pc0
            return NONE
        if not self.is_ref(v, "var"):
            if v is NONE:
                self.crash("objective coefficient of None")
                return NONE
            raise Unsup("objective coefficient of %s" % show(v))
        self.changed(s)
        kf = self.coefformals("obj", v.a[1])
        self.wr(("ocoef", s.a[1], v.a[1]), s.a[1], s.a[2:], x, kf, v.a[2:], init=K0)
        return NONE

    def obj_GetCoefficient(self, s, v):
        kf = self.coefformals("obj", v.a[1])
        r = self.rd(("ocoef", s.a[1], v.a[1]), s.a[1], s.a[2:], kf, v.a[2:])
        return K0 if r is UNDEF else self.simp(r)

    def obj_SetOffset(self, s, x):
        self.changed(s)
        self.sset(s, "offset", x)
        return NONE

    def obj_SetMinimization(self, s):
        self.changed(s)
        self.sset(s, "sense", K(-1))
        return NONE

    def obj_SetMaximization(self, s):
        self.changed(s)
        self.sset(s, "sense", K1)
        return NONE

    def obj_SetOptimizationDirection(self, s, mx):
        self.changed(s)
        self.sset(s, "sense", ite(self.truthy(mx), K1, K(-1)))
        return NONE

    def obj_Clear(self, s):
        self.changed(s)
        for c in list(self.cells):
            if c[0] == "ocoef" and c[1] == s.a[1]:
                self.cells[c] = ite(self.pc, K0, self.cells[c])
        self.sset(s, "offset", K0)
        self.sset(s, "sense", K0)
        return NONE

    def obj_Value(self, s):
        return F("objval", self.epoch(s))

    def m_solver_Solve(self, s, params=None):
        if self.loops:
            raise Unsup("solver called inside a loop")
        src = self.loaded_from(s)
        self.nsolve += 1
        n = self.solve_number(s)
        self.solves.append(dict(n=n, solver=s, cells=dict(self.cells), events=list(self.events), pc=self.pc, src=src,
                                kind="mip"))
        self.setattr_cell(s, "epoch", n)
        return F("status", n)

    def solve_number(self, s):
        return K(len(self.solves) + 1)

    def m_solver_wall_time(self, s):
        return F("wall", self.epoch(s))

    m_solver_WallTime = m_solver_wall_time

    def m_solver_ExportModelToProto(self, s, p):
        if self.sget(s, "epoch") is None:
            pass
        self.cells[("attr", p.a[1], "of")] = s
        self.exported[p.a[1]] = self.state_of(s)
        return NONE

    def state_of(self, s):
        """What the model of a solver consists of."""
        own = {c: v for c, v in self.cells.items() if c[0] in ("coef", "ocoef") or
               c[0] == "attr" and c[2] in ("lb", "ub", "int", "offset", "sense") and
               c[1] in self.objs and self.objs[c[1]].kind in ("cons", "var", "solver")}
        return own, [e for e in self.events if e[0] in ("newvar", "newcons")]

    def m_solver_LoadModelFromProto(self, s, p):
        src = self.cells.get(("attr", p.a[1], "of"))
        if src is None:
            raise Unsup("loading of an unknown model")
        now, then = self.state_of(src), self.exported.get(p.a[1])
        if then is not None and (now[1] != then[1] or {c: v for c, v in now[0].items() if v is not K0} !=
                                 {c: v for c, v in then[0].items() if v is not K0}):
            self.old_copies.append(self.pc)     # the model has changed since it was exported
        self.cells[("attr", s.a[1], "copyof")] = src
        self.cells[("attr", src.a[1], "lastcopy")] = s
        return K0

    def m_solver_Clear(self, s):
        raise Unsup("solver cleared")


class _Py(PyVal):
    """A function of the analysis itself."""

    def __init__(self, fn):
        self.fn = fn


def _call(self, f, args, kwargs):
    if isinstance(f, _Py):
        return f.fn(args)
    return Interp.call(self, f, args, kwargs)


Lib.call = _call
MIPS = ("cbc", "sat", "scip", "highs", "cp_sat", "cp-sat", "gurobi", "cplex")


def _isol_ty(t):
    r = t.a[2]
    lo, hi = VARRNG.get(r.a[1], (None, None)) if r.op == "f" else (None, None)
    return ("int", lo, hi)


FTY["isolval"] = _isol_ty
FTY["ncomb"] = ("int", 0, None)
FTY["comb"] = lambda t: ("list", ("int", 0, None), ("distinct",))
FTY["log2"] = ("real",)
FTY["sqrt"] = ("real",)
FTY["cidx"] = ("vidx",)
