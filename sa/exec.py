"""Summarises the effect of package code as terms (see term.py): statements are predicated on their path condition,
package calls are expanded in place, and every loop is summarised once, for all its iterations, by closed forms."""
import ast
from fractions import Fraction

from . import source
from .term import (infeasible, inhabited, shift_guard, T, K, K0, K1, NONE, BOT, S, F, Unsup, fresh, BD, Sum, Exists, First, add, sub, mul, neg, le, lt, ge,
                   gt, eq, ite, land, lor, lnot, restrict, leaves, where, truth, subst, typeof, isnum, isk, atom, mk,
                   apply, member, absorb, PHITY, VARRNG, _in_range, universe, subterms, flags, count, domain_guard, show, TY, poly, terms, solve_for,
                   Fold, rewrite, by_rank, witnessed)


BOOL01 = ("int", 0, 1)


class PyVal:
    """Values that are not terms: functions, classes, bound methods, iterables of the language."""


class FuncV(PyVal):
    def __init__(self, f, self_=None, env=None, cls=None):
        self.f, self.self_, self.env, self.cls = f, self_, env, cls


class ClsV(PyVal):
    def __init__(self, c):
        self.c = c


class ExtV(PyVal):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name


class MethV(PyVal):
    """Method of a modelled object."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SuperV(PyVal):
    def __init__(self, obj, after):
        self.obj, self.after = obj, after


class ModV(PyVal):
    def __init__(self, m):
        self.m = m


class RangeV(PyVal):
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step


class IterV(PyVal):
    """enumerate / zip / map / filter / reversed / dict views."""

    def __init__(self, kind, args):
        self.kind, self.args = kind, args


class GenV(PyVal):
    def __init__(self, node, env, mod, cls):
        self.node, self.env, self.mod, self.cls = node, env, mod, cls


class Seq:
    """List content: ordered segments (binders, guard, element); binders = ((b, dom), ...)."""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __eq__(self, o):
        return isinstance(o, Seq) and self.segs == o.segs

    def __hash__(self):
        return hash(self.segs)

    def __repr__(self):
        return "Seq[" + "; ".join("%s|%s: %s" % (",".join("%s in %s" % (show(b), show(d[1])) for b, d in bs)
                                                 if bs != "tail" else "tail", show(g) if isinstance(g, T) else g,
                                                 e if not isinstance(e, T) else show(e))
                                  for bs, g, e in self.segs) + "]"

    def map(self, fn):
        return Seq([(bs if bs == "tail" else tuple((b, tuple(fn(x) if isinstance(x, T) else x for x in d)) for b, d in bs),
                     fn(g) if isinstance(g, T) else g, fn(e) if isinstance(e, T) else e) for bs, g, e in self.segs])


def vsubst(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Seq):
        return v.map(lambda t: subst(t, m))
    return v


def seqlen(seq):
    n = K0
    for bs, g, e in seq.segs:
        if bs == "tail":
            n = add(n, mk("f", "phi", g, "len"))
            continue
        c = g
        for b, d in reversed(bs):
            c = Sum(b, d, c)
        n = add(n, c)
    return n


class Obj:
    def __init__(self, kind, params, cls=None, tag=None):
        self.kind, self.params, self.cls, self.tag = kind, params, cls, tag
        self.pc = K1          # under which condition (of the allocating iteration) the object exists


UNDEF = None
MISSING = mk("s", "<missing>")
DEAD = mk("s", "<value of an unknown iteration>")


def tests(g):
    """Conditions a term distinguishes."""
    out, seen, st = [], set(), [g]
    while st:
        t = st.pop()
        if t.op != "d" or t in seen:
            continue
        seen.add(t)
        out.extend((t.a[0], c) for c in t.a[1])
        st.extend(t.a[2])
    return out


class Frame:
    def __init__(self, fn, fid, mod, cls):
        self.fn, self.fid, self.mod, self.cls = fn, fid, mod, cls
        self.ret = None       # value so far
        self.retc = K0        # relative to the current loop iteration
        self.parent = None


class LoopCtl:
    def __init__(self, frame):
        self.brk = K0
        self.frame = frame


class Interp:
    MAXDEPTH = 40
    DEFAULTS = {"coef": K0, "ocoef": K0, "map": MISSING, "mapin": K0}

    def __init__(self, prog):
        self.prog = prog
        self.cells = {}
        self.objs = {}
        self.noid = 0
        self.pc = K1
        self.exc = K0
        self.ctx = []
        self.loops = []           # open binders
        self.loopctl = []
        self.frames = []
        self.nfid = 0
        self.nphi = 0
        self.past = []            # events before each open loop
        self.listed = {}          # model -> outermost loop in which its elements were listed
        self.events = []          # (kind, binders, guard, data)
        self.depth = 0
        self.nsolve = 0
        self.notes = []
        self.steps = 0
        self.visited = set()
        self.stubs = {}
        self.cap = {}            # function -> number of rounds executed of its outer counting loops
        self.pick = {}           # list -> the element a random choice yields
        self.exported, self.old_copies = {}, []
        self.phi_start = {}      # loop-carried value -> its value before the loop
        self.univ = {}           # kind of number -> how many there are (numbers given out during the run)
        self.symbase = {}
        self.soft_asserts = False # record failing assertions without cutting the run short
        self.keyed = {}           # object -> dictionary whose keys number its instances
        self.keyuniv = {}
        self.inphi = {}
        self.node = None
        self.mod = None

    # ------------------------------------------------------------ heap
    def alloc(self, kind, cls=None, tag=None):
        self.noid += 1
        self.objs[self.noid] = o = Obj(kind, tuple(self.loops), cls, tag)
        o.pc = self.pc
        return mk("f", "ref", self.noid, *self.loops)

    def obj(self, ref):
        return self.objs[ref.a[1]]

    def is_ref(self, v, kind=None):
        return isinstance(v, T) and v.op == "f" and v.a[0] == "ref" and (kind is None or self.objs[v.a[1]].kind == kind)

    def params_of(self, oid):
        return self.objs[oid].params if not isinstance(oid, tuple) else self.symbase[oid][1]

    def rd(self, cell, oid, args, keyf=(), keya=()):
        """Content of a cell of object oid at the given allocation arguments / keys."""
        v = self.cells.get(cell, UNDEF)
        if v is UNDEF:
            return UNDEF
        m = {p: a for p, a in zip(self.params_of(oid), args) if p is not a}
        for p, a in zip(keyf, keya):
            if p is not a:
                m[p] = a
        if m:
            for p in m:
                if p in self.loops and p not in keyf:
                    raise Unsup("object of another iteration")
            v = vsubst(v, m)
        return v

    def same(self, oid, args):
        c = K1
        for p, a in zip(self.params_of(oid), args):
            if p is not a:
                if p in self.loops:
                    raise Unsup("object of another iteration")
                c = land(c, eq(p, a))
        return c

    def wr(self, cell, oid, args, val, keyf=(), keya=(), init=UNDEF):
        c = self.same(oid, args)
        for p, a in zip(keyf, keya):
            if p is not a:
                c = land(c, eq(p, a))
        c = land(c, self.pc)
        old = self.cells.get(cell, init)
        if old is UNDEF:
            old = MISSING if c is not K1 else val
            if c is not K1 and not keyf and all(p is a for p, a in zip(self.params_of(oid), args)):
                old = val      # first assignment of an attribute or variable
        if old is val:
            self.cells[cell] = val
            return
        if isinstance(old, T) and isinstance(val, T):
            self.cells[cell] = ite(c, val, old)
        elif c is K1:
            self.cells[cell] = val
        elif old is MISSING:
            self.cells[cell] = val
        else:
            if c is K0:
                return
            raise Unsup("conditional assignment of a non-term")

    def simp(self, v):
        if isinstance(v, T) and v.op == "d":
            v = restrict(v, self.pc)
            for c in reversed(self.ctx):
                if v.op != "d":
                    break
                v = restrict(v, c)
        return v

    # attributes of modelled objects
    def getattr_cell(self, ref, name):
        oid = ref.a[1]
        v = self.rd(("attr", oid, name), oid, ref.a[2:])
        return v

    def setattr_cell(self, ref, name, val):
        oid = ref.a[1]
        self.wr(("attr", oid, name), oid, ref.a[2:], val)

    # list content
    def seq(self, ref):
        oid = ref.a[1]
        return self.rd(("list", oid), oid, ref.a[2:])

    def setseq(self, ref, seq):
        """Unconditional replacement (under the current instance)."""
        oid = ref.a[1]
        c = land(self.same(oid, ref.a[2:]), self.pc)
        if c is not K1 and self.cells.get(("list", oid)) is not None:
            raise Unsup("conditional replacement of a list's content")
        self.cells[("list", oid)] = seq

    def newlist(self, segs):
        r = self.alloc("list")
        self.cells[("list", r.a[1])] = Seq(segs)
        return r

    def rel(self, oid, g):
        """Condition g, given that the object exists."""
        if isinstance(oid, tuple):
            return g
        o = self.objs[oid]
        if o.params == tuple(self.loops[:len(o.params)]) and o.pc is not K1:
            return restrict(g, o.pc)
        return g

    def append(self, ref, segs):
        oid = ref.a[1]
        args = ref.a[2:]
        c = self.same(oid, args)
        cell = ("list", oid)
        old = self.cells[cell]
        new = []
        for bs, g, e in segs:
            if bs == "tail":
                raise Unsup("copy of a list under construction")
            new.append((bs, self.rel(oid, land(c, self.pc, g)), e))
        new = [s for s in new if s[1] is not K0]
        self.cells[cell] = Seq(old.segs + tuple(new))

    # sets: membership as a function of the element
    def setelt(self, oid):
        key = ("setvar", oid)
        b = self.symbase.get(key)
        if b is None:
            b = self.symbase[key] = fresh(None, "e")
        return b

    def newset(self, guard_fn=None):
        r = self.alloc("set")
        oid = r.a[1]
        e = self.setelt(oid)
        self.cells[("set", oid)] = guard_fn(e) if guard_fn else K0
        return r

    # ------------------------------------------------------------ symbolic containers
    def sym_root(self, t):
        """Pattern of a symbolic container (formal binders for indices) and its arguments."""
        args = []

        def go(x):
            if x.op == "s":
                return x, K1
            if x.op == "f" and x.a[0] == "attr":
                b, _ = go(x.a[1])
                return mk("f", "attr", b, x.a[2]), K1
            if x.op == "f" and x.a[0] == "sel":
                b, _ = go(x.a[1])
                args.append(x.a[2])
                return ("sel", b, len(args) - 1), K1
            raise Unsup("mutation of %s" % show(x))

        pat = repr_pat(t, args)
        oid = ("sym", pat)
        if oid not in self.symbase:
            formals = tuple(fresh(None, "p") for _ in args)
            self.symbase[oid] = (rebuild_pat(t, list(formals)), formals)
        return oid, tuple(args)

    # ------------------------------------------------------------ running functions
    def here(self, node):
        self.node = node

    def call_func(self, fv, args, kwargs):
        f = fv.f
        if isinstance(f, ast.Lambda):
            return self.call_lambda(fv, args, kwargs)
        if self.depth > self.MAXDEPTH:
            raise Unsup("recursion")
        node = f.node
        if isinstance(node, ast.AsyncFunctionDef):
            raise Unsup("async")
        self.visited.add(f.qual())
        if f.qual() in self.stubs:
            return self.stubs[f.qual()](self, ([fv.self_] if fv.self_ is not None else []) + list(args), kwargs)
        self.nfid += 1
        fr = Frame(f, self.nfid, f.mod, f.cls)
        fr.cls = f.cls
        fr.parent = fv.env
        if fv.self_ is not None and not f.static:
            args = [fv.self_] + list(args)
        self.bind_params(node.args, args, kwargs, fr, f)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node)):
            return self.run_generator(node, fr)
        return self.run_frame(node.body, fr)

    def run_frame(self, body, fr):
        self.frames.append(fr)
        self.depth += 1
        pc0 = self.pc
        exc0 = self.exc
        self.exc = K0
        savemod = self.mod
        self.mod = fr.mod
        nctl = len(self.loopctl)
        try:
            self.block(body)
            if self.pc is not K0:
                self.do_return(NONE)
        finally:
            self.depth -= 1
            self.frames.pop()
            self.mod = savemod
        assert nctl == len(self.loopctl)
        self.pc = land(pc0, lnot(self.exc))
        self.exc = lor(exc0, self.exc)
        r = fr.ret
        self.drop_frame(fr.fid)
        if r is None:
            return NONE
        return self.simp(r) if isinstance(r, T) else r

    def drop_frame(self, fid):
        if any(isinstance(o, tuple) for o in ()):
            return
        if fid in getattr(self, "captured", ()):
            return
        for k in [k for k in self.cells if k[0] == "var" and k[1] == fid]:
            del self.cells[k]

    def run_generator(self, node, fr):
        """Generator functions are collected into a list (their consumers here never interleave effects)."""
        out = self.newlist([])
        fr.yields = out
        self.run_frame(node.body, fr)
        return out

    def call_lambda(self, fv, args, kwargs):
        self.nfid += 1
        fr = Frame(None, self.nfid, fv.cls[0], fv.cls[1])
        fr.parent = fv.env
        self.bind_params(fv.f.args, args, kwargs, fr, None)
        self.frames.append(fr)
        sm = self.mod
        self.mod = fr.mod
        try:
            return self.ev(fv.f.body)
        finally:
            self.mod = sm
            self.frames.pop()

    def bind_params(self, a, args, kwargs, fr, f):
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        vals = {}
        if len(args) > len(names) and a.vararg is None:
            raise Unsup("too many arguments")
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = self.mktuple(list(args[len(names):]))
        for n in names[len(args):]:
            if n in kwargs:
                vals[n] = kwargs.pop(n)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
        if kwargs:
            raise Unsup("unknown keyword argument")
        defaults = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defaults:
            if n not in vals:
                sm, self.mod = self.mod, fr.mod
                vals[n] = self.ev_default(d, f, n)
                self.mod = sm
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise Unsup("missing argument %s" % n)
        for n, v in vals.items():
            self.cells[("var", fr.fid, n)] = v

    def ev_default(self, d, f, n):
        return self.ev(d)

    def do_return(self, v):
        fr = self.frames[-1]
        if self.pc is K0:
            return
        if fr.ret is None:
            fr.ret = v
        elif isinstance(v, T) and isinstance(fr.ret, T):
            fr.ret = ite(self.pc, v, fr.ret)
        elif v is not fr.ret:
            raise Unsup("conditional return of a non-term")
        fr.retc = lor(fr.retc, self.pc)
        self.pc = K0

    def crash(self, what, cond=K1):
        """The statement at hand raises an exception when cond holds; the summary goes on as if it did not."""
        g = land(self.pc, self.simp(cond))
        if g is not K0 and not infeasible(g):
            self.events.append(("crash", (), g, (K(what),)))

    def raise_(self, name, node=None):
        if self.pc is K0:
            return
        self.events.append(("raise", (), self.pc, (name,)))
        self.exc = lor(self.exc, self.pc)
        self.pc = K0

    # ------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            if self.pc is K0:
                return
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > 60000:
            raise Unsup("too many steps")
        self.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsup("statement %s" % type(s).__name__)
        m(s)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        pass

    s_ImportFrom = s_Import

    def s_Global(self, s):
        raise Unsup("global")

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.do_return(v)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            put = lambda v: self.assign(t, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.get_attr(o, t.attr)
            put = lambda v: self.set_attr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            cur = self.get_item(o, i)
            put = lambda v: self.set_item(o, i, v)
        else:
            raise Unsup("augmented target")
        rhs = self.ev(s.value)
        if isinstance(s.op, (ast.Add, ast.Mult)):
            self.input_change(cur, "in-place addition")
        if isinstance(t, ast.Name) and isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and isinstance(cur, T) \
                and not self.is_ref(cur) and self.setlike(cur):
            self.set_change(cur)
        if self.is_ref(cur, "list") and isinstance(s.op, ast.Add):
            self.list_extend(cur, rhs)
            return
        if self.is_ref(cur, "set") and isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            self.set_inplace(cur, rhs, s.op)
            return
        put(self.binop(s.op, cur, rhs))

    def s_If(self, s):
        c = self.cond(s.test)
        pc0 = self.pc
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, a, b):
        c = self.simp(c)
        pc0 = self.pc
        pt = land(pc0, c)
        pf = land(pc0, lnot(c))
        # value-dependent reachability
        self.pc = pt
        if pt is not K0:
            a()
        p1 = self.pc
        self.pc = pf
        if pf is not K0:
            b()
        p2 = self.pc
        self.pc = lor(p1, p2)

    def s_Assert(self, s):
        try:
            save = (dict(self.cells), list(self.events), self.pc, self.exc)
            c = self.simp(self.cond(s.test))
        except Unsup as e:
            self.cells, self.events, self.pc, self.exc = save
            self.notes.append("assertion not understood: %s" % e)
            return
        if self.soft_asserts:
            g = land(self.pc, lnot(c))
            if g is not K0:
                self.events.append(("raise", (), g, ("AssertionError",)))
            return
        self.branch(c, lambda: None, lambda: self.raise_("AssertionError"))

    def s_Raise(self, s):
        name = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(e)
        self.raise_(name)

    def s_Try(self, s):
        n0 = len(self.events)
        exc0 = self.exc
        self.block(s.body)
        if self.exc is not exc0:
            raise Unsup("exception inside try")
        self.block(s.orelse)
        self.block(s.finalbody)

    def s_With(self, s):
        raise Unsup("with")

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.input_change(self.ev(t.value), "del")
        raise Unsup("del")

    def input_change(self, o, what):
        """Change of a list that was passed in from outside."""
        if isinstance(o, T) and not self.is_ref(o) and typeof(o)[0] == "list":
            self.mutates(o, what)
            raise Unsup("%s of an input list" % what)

    def s_Continue(self, s):
        self.loopctl[-1].cont = lor(self.loopctl[-1].cont, self.pc)
        self.pc = K0

    def s_Break(self, s):
        self.loopctl[-1].brk = lor(self.loopctl[-1].brk, self.pc)
        self.pc = K0

    def s_FunctionDef(self, s):
        f = source.Func(self.mod, s, None)
        self.captured = getattr(self, "captured", set()) | {self.frames[-1].fid}
        self.assign_name(s.name, FuncV(f, env=self.frames[-1]))

    def s_For(self, s):
        it = self.ev(s.iter)
        cap = self.cap.get(self.frames[-1].fn.qual()) if self.cap and self.frames[-1].fn is not None else None
        if cap is not None and not self.loops and isinstance(it, RangeV) and isinstance(s.target, ast.Name) and \
                isnum(it.a) and isnum(it.b) and it.step == 1:
            it = self.newlist([((), K1, K(k)) for k in range(it.a.a[0], it.b.a[0])[:cap]])
        elses = self.__dict__.setdefault("elses", [])
        elses.append(bool(s.orelse))
        try:
            brk = self.iterate(it, lambda v: (self.assign(s.target, v), self.block(s.body)))
        finally:
            elses.pop()
        if s.orelse:
            pc0 = self.pc
            self.branch(brk, lambda: None, lambda: self.block(s.orelse))

    def s_While(self, s):
        brk = self.while_loop(s.test, s.body)
        if s.orelse:
            self.branch(brk, lambda: None, lambda: self.block(s.orelse))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.ev(t.value), self.ev_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsup("starred target")
            for k, e in enumerate(t.elts):
                self.assign(e, self.get_item(v, K(k)))
        else:
            raise Unsup("target")

    def assign_name(self, name, v):
        fr = self.frames[-1]
        cell = ("var", fr.fid, name)
        old = self.cells.get(cell, UNDEF)
        if old is UNDEF or old is v or not isinstance(v, T) or not isinstance(old, T):
            if old is not UNDEF and old is not v and self.pc is not K1 and not self.covers(fr):
                # conditional re-binding of something that is not a term
                if isinstance(v, PyVal) or isinstance(old, PyVal):
                    raise Unsup("conditional binding of %s" % name)
            self.cells[cell] = v
            return
        if old is DEAD or old is MISSING:
            self.cells[cell] = v
            return
        self.cells[cell] = ite(self.pc, v, old)

    def covers(self, fr):
        return False

    # ------------------------------------------------------------ loops
    def iterate(self, it, body):
        """Runs body(element) for each element; returns the condition that the loop was left by break."""
        segs = self.iter_segs(it)
        pc0 = self.pc
        left = K0
        for bs, g, e in segs:
            if self.pc is K0:
                break
            if bs == "tail":
                raise Unsup("iteration over a list under construction")
            left = lor(left, self.iter_seg(list(bs), g, e, body))
            self.pc = land(self.pc, lnot(left)) if left is not K0 else self.pc
        # everything but return / raise resumes after the loop
        self.pc = lor(self.pc, land(pc0, left)) if left is not K0 else self.pc
        return left

    def iter_seg(self, bs, g, e, body):
        if not bs:
            ctl = LoopCtl(self.frames[-1])
            ctl.cont = K0
            self.loopctl.append(ctl)
            pc0 = self.pc
            res = []

            def go():
                body(e() if callable(e) else e)
            self.branch(g, go, lambda: None)
            self.loopctl.pop()
            self.pc = lor(self.pc, ctl.cont)
            return ctl.brk
        (b0, dom), rest = bs[0], bs[1:]
        if dom[0] == "R" and dom[1] is K1 and False:
            pass

        def one(b):
            m = {b0: b}
            ee = (lambda: vsubst(e() if callable(e) else e, m)) if callable(e) else vsubst(e, m)
            gg = subst(g, m)
            rr = [(x, tuple(subst(y, m) if isinstance(y, T) else y for y in d)) for x, d in rest]
            k = self.iter_seg(rr, gg, ee, body)
            if k is not K0:
                ctl = self.loopctl[-1]
                ctl.brk = lor(ctl.brk, k)
                self.pc = land(self.pc, lnot(k))
        return self.loop(dom, one)

    def loop(self, dom, one, whil=False):
        """Summarises `for b in dom: one(b)`.  Returns the condition of having been left by break."""
        if dom[0] == "R" and isnum(dom[1]) and dom[1].a[0] <= 0:
            return K0
        pc0, exc0 = self.pc, self.exc
        start = dict(self.cells)
        objs0 = dict(self.objs)
        ev0 = list(self.events)
        frames = [f for f in self.frames]
        frs = [(f, f.ret, f.retc) for f in frames]
        sols0 = self.nsolve
        noid0 = self.noid
        mods = {}
        types = {}
        keep = {}              # parts of lists that stay as they are
        boxed = {}
        guess, noguess = {}, set()
        for attempt in range(18):
            self.cells = dict(start)
            self.objs = dict(objs0)
            self.nsolve = sols0
            self.noid = noid0
            self.events = []
            for f, r, c in frs:
                f.ret, f.retc = None, K0
            b = fresh(dom)
            phis = {}
            startphi = {}
            for cell in sorted(mods, key=lambda c: c in guess):
                if cell in guess:
                    v, pid = self.keyed_value(cell, guess[cell], startphi[("mapin",) + cell[1:]]), None
                else:
                    v, pid = self.make_phi(cell, start[cell], types.get(cell), keep.get(cell, ()))
                if cell[0] == "mapin" and isinstance(v, T):
                    self.inphi[pid] = cell
                phis[cell] = pid
                startphi[cell] = v
                if cell[0] == "var" and isinstance(v, T):
                    self.phi_start[v] = start[cell]
                self.cells[cell] = v
            self.ctx.append(pc0)
            self.pc, self.exc = K1, K0
            self.loops.append(b)
            ctl = LoopCtl(self.frames[-1])
            ctl.cont = K0
            self.loopctl.append(ctl)
            self.past.append(ev0)
            try:
                one(b)
            except Unsup:
                lost = [(k, bs, land(pc0, g), d) for k, bs, g, d in self.events
                        if k == "mutate" or k == "mutset" and d[0] == "in place"]
                self.pc, self.events = pc0, ev0 + lost     # state before the (outermost) loop
                raise
            finally:
                self.past.pop()
                self.loopctl.pop()
                self.loops.pop()
                self.ctx.pop()
            if self.nsolve != sols0:
                raise Unsup("solver called inside a loop")
            for cell, box in boxed.items():
                nv = self.cells[cell]
                if nv is not box:
                    bo = box.a[1]
                    self.cells[("set", bo)] = self.set_memb(self.setelt(bo), nv)
                    self.cells[cell] = box
            fresh_box = False
            for cell, v in start.items():
                nv = self.cells.get(cell, UNDEF)
                if cell[0] == "var" and cell not in boxed and nv is not v and isinstance(v, T) and isinstance(nv, T) and \
                        v not in (MISSING, DEAD) and self.setlike(v) and nv is not startphi.get(cell, v):
                    fresh_box = True
                    break
            if fresh_box:
                # a set variable that is replaced in the loop: one set, updated in place
                self.cells, self.objs, self.noid = dict(start), dict(objs0), noid0
                self.pc = pc0
                box = self.set_of(lambda x: self.set_memb(x, v), self.set_univ(v))
                self.obj(box).box = True
                self.obj(box).origin = v
                start = dict(self.cells)
                start[cell] = box
                objs0, noid0 = dict(self.objs), self.noid
                boxed[cell] = box
                mods.pop(cell, None)
                continue
            changed = set()
            for cell, v in start.items():
                nv = self.cells.get(cell, UNDEF)
                if nv is UNDEF:
                    continue
                sv = startphi.get(cell, v)
                if nv is not sv and nv != sv:
                    changed.add(cell)
            retyped = False
            for cell in mods:
                if cell in changed and isinstance(self.cells[cell], T) and PHITY.get(phis[cell], ("any",))[0] == "int":
                    if any(typeof(l)[0] == "real" for _, l in leaves(self.cells[cell])):
                        types[cell] = ("real",)
                        retyped = True
                elif cell in keep and keep[cell] - self.same_parts(startphi[cell], self.cells[cell]):
                    keep[cell] &= self.same_parts(startphi[cell], self.cells[cell])
                    retyped = True
            leak = False
            for cell, v in self.cells.items():
                if cell not in start and isinstance(v, T) and (b in v.fv or self.stateful(cell)) and \
                        self.default(cell) is not None and b not in self.formals(cell):
                    start[cell] = self.default(cell)
                    mods[cell] = True
                    leak = True
            new = changed - set(mods)
            if not new and not retyped and not leak:
                bad = [c for c in guess if not self.keyed_ok(c, guess[c], self.cells)]
                if not bad:
                    break
                for c in bad:
                    noguess.add(c)
                    del guess[c]
                continue
            for c in new:
                mods[c] = True
                if isinstance(start[c], Seq):
                    keep[c] = self.same_parts(start[c], self.cells[c])
            for c in list(mods):
                if c[0] == "map" and c not in guess and c not in noguess and c[2][0] in ("val", "tuple") and \
                        ("mapin",) + c[1:] in mods:
                    o = self.keyed_guess(c, start, objs0)
                    if o is not None:
                        guess[c] = o
                        objs0[o] = self.objs[o]
                        for n in ("lb", "ub", "int"):
                            if ("attr", o, n) in self.cells:
                                start.setdefault(("attr", o, n), self.cells[("attr", o, n)])
                        noid0 = max(noid0, self.noid)
        else:
            raise Unsup("loop does not stabilise")
        return self.close_loop(b, dom, pc0, exc0, start, startphi, phis, mods, changed, ev0, frs, ctl)

    # -- objects numbered by the key of a dictionary (created when the key is new)
    def keyed_value(self, cell, o, inn):
        fs = self.formals(cell)
        return ite(inn, F("vidx", mk("f", "ref", o, *fs)), MISSING)

    def keyed_leaf(self, v):
        for _, l in leaves(v):
            if l.op == "f" and l.a[0] == "vidx" and self.is_ref(l.a[1]):
                return l.a[1].a[1]
        return None

    def keyed_guess(self, cell, start, objs0):
        """Object whose instances are the values of the dictionary, if every value is a variable created for its key."""
        inn = ("mapin",) + cell[1:]
        v = self.cells.get(cell)
        if not isinstance(v, T) or v is DEAD or self.params_of(cell[1]):
            return None
        o = self.keyed_leaf(start.get(cell, MISSING))
        if o is not None:
            return o if self.keyed_ok(cell, o, start) else None
        if start.get(inn, K0) is not K0:
            return None
        o = self.keyed_leaf(v)
        if o is None:
            return None
        ob = self.objs[o]
        if o in self.keyed:
            return o
        us = self.keyuniv.get(cell)
        at = [self.cells.get(("attr", o, n)) for n in ("lb", "ub", "int")]
        if us is None or None in us or None in at or any(x.fv & set(ob.params) for x in at):
            return None
        self.noid += 1
        k = self.noid
        self.objs[k] = Obj(ob.kind, tuple(fresh(("R", u), "q") for u in us), ob.cls, ob.tag)
        for n, x in zip(("lb", "ub", "int"), at):
            start[("attr", k, n)] = x
        if o in VARRNG:
            VARRNG[k] = VARRNG[o]
        self.keyed[k] = inn
        return k

    def keyed_ok(self, cell, o, cells):
        """Is every present value of the dictionary the instance for its key, and every instance present?"""
        inn = ("mapin",) + cell[1:]
        fs = self.formals(cell)
        v, i = cells.get(cell, MISSING), cells.get(inn, K0)
        if not isinstance(v, T) or not isinstance(i, T):
            return False
        for c, l in leaves(v):
            c = land(c, i)
            if c is K0:
                continue
            if not (l.op == "f" and l.a[0] == "vidx" and self.is_ref(l.a[1]) and l.a[1].a[1] == o):
                return False
            for f, a in zip(fs, l.a[1].a[2:]):
                if f is not a and land(c, lnot(eq(f, a))) is not K0:
                    return False
        for kind, bs, g, d in self.events:
            if kind == "newvar" and not bs and self.is_ref(d[1]) and d[1].a[1] == o and cells is self.cells:
                m = {f: a for f, a in zip(fs, d[1].a[2:])}
                if land(g, lnot(subst(i, m))) is not K0:
                    return False
        return True

    def keyed_new(self, lo, hi, integer, tag):
        """Reference to the variable of a new key, when the creation is conditional on the key being new."""
        for q in subterms(self.pc):
            if q.op == "f" and q.a[0] == "phi" and q.a[1] in self.inphi and land(self.pc, atom(q)) is K0:
                inn = self.inphi[q.a[1]]
                o = self.keyed_leaf(self.cells.get(("map",) + inn[1:], MISSING))
                if o is None or self.keyed.get(o) != inn or self.objs[o].tag is not tag:
                    continue
                if [self.cells.get(("attr", o, n)) for n in ("lb", "ub", "int")] == [lo, hi, integer]:
                    return mk("f", "ref", o, *q.a[2:])
        return None

    def default(self, cell):
        """Content of a cell before its first write, if that is known."""
        k = self.DEFAULTS.get(cell[0])
        if k is None and cell[0] == "sattr":
            k = F("attr", self.symbase[cell[1]][0], cell[2])
        if k is None and cell[0] == "set" and isinstance(cell[1], tuple):
            k = member(self.setelt(cell[1]), self.symbase[cell[1]][0])
        return k

    def stateful(self, cell):
        """Cells of input objects: a later iteration may see what an earlier one wrote."""
        return cell[0] == "sattr" or cell[0] == "set" and isinstance(cell[1], tuple)

    def same_parts(self, a, b):
        if not isinstance(b, Seq):
            return set()
        return {k for k, (x, y) in enumerate(zip(a.segs, b.segs)) if x[0] != "tail" and x == y}

    def make_phi(self, cell, v, ty=None, keep=()):
        self.nphi += 1
        pid = self.nphi
        if isinstance(v, T):
            fs = self.formals(cell)
            t = typeof(v)
            if v.op == "d":
                for _, l in leaves(v):
                    lt_ = typeof(l)
                    if t[0] == "any" and lt_[0] == "int":
                        pass
            if t[0] == "int":
                t = ("int", None, None)
                if v in (K0, K1) or (v.op == "d" and all(l in (K0, K1) for _, l in leaves(v))):
                    t = ("int", None, None)
            if t[0] in ("none", "str", "ref", "vidx", "tuple"):
                t = ("any",)
            if ty:
                t = ty
            if cell[0] in ("set", "mapin"):
                PHITY[pid] = ("int", 0, 1)
                return atom(mk("f", "phi", pid, *fs)), pid
            PHITY[pid] = t
            return mk("f", "phi", pid, *fs), pid
        if isinstance(v, Seq):
            segs = []
            for k, (bs, g, e) in enumerate(v.segs):
                if bs == "tail" or k in keep:
                    segs.append((bs, g, e))
                    continue
                if isinstance(e, T):
                    t = typeof(e)
                    PHITY[(pid, k)] = ("int", None, None) if t[0] == "int" else (t if t[0] == "real" else ("any",))
                    if ty:
                        PHITY[(pid, k)] = ty
                    e2 = mk("f", "phi", (pid, k), *[b for b, _ in bs])
                else:
                    e2 = e
                segs.append((bs, g, e2))
            segs.append(("tail", (pid, "t"), None))
            PHITY[(pid, "t")] = ("int", 0, None)
            return Seq(segs), pid
        raise Unsup("loop changes a binding that is not a term")

    def formals(self, cell):
        if cell[0] == "var":
            return ()
        if cell[0] in ("map", "mapin"):
            return self.params_of(cell[1]) + self.keyformals(cell[1], cell[2])
        if cell[0] == "set":
            return self.params_of(cell[1]) + (self.setelt(cell[1]),)
        if cell[0] in ("attr", "sattr"):
            return self.params_of(cell[1])
        return ()

    def keyformals(self, oid, kk):
        key = ("keyf", oid, kk)
        r = self.symbase.get(key)
        if r is None:
            r = self.symbase[key] = tuple(fresh(None, "k") for _ in range(kk[-1]))
        return r

    # -- closing ---------------------------------------------------------
    def close_loop(self, b, dom, pc0, exc0, start, startphi, phis, mods, changed, ev0, frs, ctl):
        brk, exc = ctl.brk, self.exc
        new = {c: self.cells[c] for c in changed}
        events = self.events
        retc = K0
        rets = []
        for f, r0, c0 in frs:
            if f.retc is not K0:
                rets.append((f, f.ret, f.retc))
                retc = lor(retc, f.retc)
        fm = self.fresh_reads(b, dom, new, start, startphi, phis, mods, changed) if dom[0] == "R" else {}
        if fm:
            sb = lambda t: self.simp_reads(t, fm)
            new = {c: sb(v) for c, v in new.items()}
            brk, exc, retc, stop = sb(brk), sb(exc), sb(retc), K0
            rets = [(f, sb(v), sb(c)) for f, v, c in rets]
            events = [(k, bs if bs == "tail" else tuple((x, tuple(sb(y) for y in d)) for x, d in bs), sb(g),
                       tuple(sb(x) for x in d)) for k, bs, g, d in events]
        brk = self.idle_break(brk, retc, exc, new, events, start, startphi, mods, changed)
        stop = lor(brk, retc, exc)
        # prefix forms of the loop-carried values
        prefix = {}      # phi id -> function(args..., upto) -> term
        post = {}
        for c in mods:
            if phis[c] is None:
                post[c] = ("keyed", self.keyed_leaf(startphi[c]))
            elif c not in changed:
                v = start[c]
                self.register_prefix(prefix, c, phis[c], v, lambda at, v=v: v)
                post[c] = ("same", v)
        guessed = [c for c in mods if phis[c] is None]
        pend = {c: new[c] for c in mods if c in changed and c not in guessed}
        progress, stuck = True, set()
        while pend and progress:
            progress = False
            for c in list(pend):
                v = self.sub_prefix(pend[c], prefix, b)
                v = pend[c] = self.own_case(c, phis[c], v)
                own = self.own_phi(c, phis[c])
                others = self.phi_ids(v) - own
                if others & set().union(*[self.own_phi(d, phis[d]) for d in mods]):
                    continue
                if c in stuck:
                    continue
                cl = self.close_cell(c, phis[c], start[c], startphi[c], v, b, dom)
                if cl[0] == "open":
                    stuck.add(c)
                    cl = ("val", lambda: DEAD, lambda at: DEAD)
                    if self.folds and isinstance(v, T) and dom[0] == "R":
                        continue
                post[c] = cl
                if cl[0] == "seq":
                    for k, at in cl[2].items():
                        prefix[k] = at
                else:
                    self.register_prefix(prefix, c, phis[c], start[c], cl[2])
                del pend[c]
                progress = True
            if not progress and pend and self.folds and dom[0] == "R":
                for c, cl in self.fold_cells(pend, start, startphi, phis, b, dom, self.sub_prefix(stop, prefix, b)).items():
                    post[c] = cl
                    self.register_prefix(prefix, c, phis[c], start[c], cl[2])
                    del pend[c]
                    progress = True
        for c in pend:
            post[c] = ("dead",)
            for k in self.own_phi(c, phis[c]):
                prefix[k] = lambda args, at: DEAD
        fix = lambda t: self.sub_prefix(t, prefix, b)
        stop, brk, retc, exc = fix(stop), fix(brk), fix(retc), fix(exc)
        at_stop = None
        if stop is K0:
            active = lambda i: K1
            estop = K0
            fst = None
        else:
            if any(x is DEAD for x in subterms(stop)):
                raise Unsup("loop exit depends on a value that is not understood")
            estop = Exists(b, dom, stop)
            fst = First(b, dom, stop)
            b2 = fresh(dom)

            def active(i):
                return lnot(Exists(*self.upto(dom, i, stop, b)))
        self._close = (b, dom, stop, estop, fst, active, fix)
        # heap
        self.cells = {c: v for c, v in self.cells.items() if c in start or not self.dead_cell(c)}
        for c in list(self.cells):
            if c not in start:
                v = self.cells[c]
                if c[0] == "var" and c[1] in [f.fid for f in self.frames]:
                    # first bound inside the loop
                    if isinstance(v, T) and (b in v.fv or self.phi_ids(v)):
                        v = fix(v)
                        v = self.last_value(v, b, dom)
                    self.cells[c] = v
                else:
                    self.cells[c] = self.fixv(v, fix)
        for c in sorted(mods, key=lambda c: post[c][0] == "keyed"):
            k = post[c]
            if k[0] == "keyed":
                i = self.cells[("mapin",) + c[1:]]
                self.cells[c] = self.keyed_value(c, k[1], i) if i is not DEAD else DEAD
            elif k[0] == "same":
                self.cells[c] = start[c]
            elif k[0] == "dead":
                self.cells[c] = DEAD if not isinstance(start[c], Seq) else None
                if isinstance(start[c], Seq):
                    raise Unsup("list update in a loop is not understood")
            elif k[0] == "seq":
                self.cells[c] = k[1](pc0)
            else:
                v = k[1]()
                if c[0] in ("set", "mapin") and v is not DEAD:
                    v = absorb(v)
                self.cells[c] = ite(pc0, v, start[c]) if v is not DEAD else DEAD
        # events
        out = list(ev0)
        for kind, bs, g, data in events:
            g = fix(g)
            data = tuple(self.fixv(x, fix) for x in data)
            if kind == "raise":
                for (bs2, g2, d2) in self.wrap(b, dom, bs, g, data):
                    h = g2
                    for x, d in reversed(bs2):
                        h = Exists(x, d, h)
                    out.append((kind, (), land(pc0, h), data))
                continue
            for (bs2, g2, d2) in self.wrap(b, dom, bs, g, data):
                out.append((kind, bs2, land(pc0, g2), d2))
        self.events = out
        # control
        for f, r0, c0 in frs:
            f.ret, f.retc = r0, c0
        for f, v, c in rets:
            c = fix(c)
            tot, at = self.at_exit(c, b, dom)
            tot = land(pc0, tot)
            if isinstance(v, T):
                v = fix(v)
                v = restrict(v, c)
                if b in v.fv:
                    v = restrict(subst(v, {b: fst}), K1) if at else DEAD
                elif isinstance(v, T) and any(x is DEAD for x in subterms(v)):
                    v = DEAD
                f.ret = v if f.ret is None else ite(tot, v, f.ret)
            else:
                if f.ret is not None and f.ret is not v:
                    raise Unsup("return of a non-term in a loop")
                f.ret = v
            f.retc = lor(f.retc, tot)
        etot, _ = self.at_exit(exc, b, dom)
        self.exc = lor(exc0, land(pc0, etot))
        bt, _ = self.at_exit(brk, b, dom)
        rt, _ = self.at_exit(retc, b, dom)
        self.pc = land(pc0, lnot(lor(etot, rt)))
        return land(pc0, bt)

    def dead_cell(self, c):
        return False

    def upto(self, dom, i, g, b):
        """(binder, domain, condition) for positions before i."""
        if dom[0] != "R":
            raise Unsup("order of an unordered iteration")
        b2 = fresh(("R", i))
        return b2, ("R", i), subst(g, {b: b2})

    def at_exit(self, c, b, dom):
        """Condition that the loop stops with c, given stop = brk|ret|exc."""
        _, _, stop, estop, fst, active, fix = self._close
        if c is K0:
            return K0, True
        if c is stop:
            return estop, True
        cc = restrict(c, stop)
        if b not in cc.fv:
            return land(estop, cc), True
        return land(estop, subst(cc, {b: fst})), True

    def wrap(self, b, dom, bs, g, data):
        """An effect under guard g in each iteration -> effects of the whole loop [(binders, guard, data)]."""
        _, _, stop, estop, fst, active, fix = self._close
        out = []
        if stop is K0:
            parts = [(g, None)]
        else:
            parts = [(land(g, stop), "exit"), (land(g, lnot(stop)), "run")]
        for gg, how in parts:
            if gg is K0:
                continue
            if how == "exit":
                # happens at most once, in the stopping iteration
                g2 = restrict(gg, stop)
                m = {b: fst}
                out.append((tuple((x, tuple(subst(y, m) if isinstance(y, T) else y for y in d)) for x, d in bs),
                            land(estop, subst(g2, m)), tuple(vsubst(x, m) for x in data)))
            else:
                if how == "run":
                    gg = land(gg, active(b))
                b2 = fresh(dom)
                m = {b: b2}
                out.append((((b2, dom),) + tuple((x, tuple(subst(y, m) if isinstance(y, T) else y for y in d)) for x, d in bs),
                            subst(gg, m), tuple(vsubst(x, m) for x in data)))
        return out

    def fixv(self, v, fix):
        if isinstance(v, T):
            return fix(v)
        if isinstance(v, Seq):
            return v.map(fix)
        if isinstance(v, tuple):
            return tuple(self.fixv(x, fix) for x in v)
        return v

    def phi_ids(self, v):
        if isinstance(v, T):
            return {x[1] for x in v.fv if isinstance(x, tuple)}
        if isinstance(v, Seq):
            s = set()
            for bs, g, e in v.segs:
                if bs == "tail":
                    s.add(g)
                    continue
                for _, d in bs:
                    for x in d:
                        if isinstance(x, T):
                            s |= self.phi_ids(x)
                s |= self.phi_ids(g)
                if isinstance(e, T):
                    s |= self.phi_ids(e)
            return s
        return set()

    def own_phi(self, c, pid):
        s = {pid, (pid, "t")}
        for k in range(40):
            s.add((pid, k))
        return s

    def own_case(self, c, pid, v):
        """Reads of the cell at another key that only matter where that key is the one described."""
        fs = self.formals(c)
        if not isinstance(v, T) or not fs:
            return v
        own = mk("f", "phi", pid, *fs)
        for x in sorted((x for x in subterms(v) if x.op == "f" and x.a[0] == "phi" and x.a[1] == pid and x is not own),
                        key=lambda x: x.id):
            if any(f in x.fv for f in fs):
                continue
            e = K1
            for f, a in zip(fs, x.a[2:]):
                e = land(e, eq(f, a))
            off = restrict(v, lnot(e))
            if x in subterms(off):
                continue
            v = ite(e, subst(restrict(v, e), {x: own}), off)
        return v

    def fresh_reads(self, b, dom, new, start, startphi, phis, mods, changed):
        """Round b of a loop that changes a container at position b only reads there what was there at the start."""
        out = {}
        reads = {}
        for v in list(new.values()):
            for t in ([v] if isinstance(v, T) else [x for s in v.segs for x in s[1:] if isinstance(x, T)]
                      if isinstance(v, Seq) else []):
                for x in subterms(t):
                    if x.op == "f" and x.a[0] == "phi" and any(a is b for a in x.a[2:]):
                        reads.setdefault(x.a[1], set()).add(x)
        for c in mods:
            pid = phis[c]
            if pid is None or c not in changed:
                continue
            if isinstance(startphi[c], Seq):
                todo = [((pid, k), tuple(x for x, _ in s[0]), s[2], new[c].segs[k][2], start[c].segs[k][2])
                        for k, s in enumerate(startphi[c].segs) if s[0] != "tail" and isinstance(s[2], T)]
            elif isinstance(new[c], T):
                todo = [(pid, self.formals(c), startphi[c], new[c], start[c])]
            else:
                continue
            for p, fs, own, v, init in todo:
                if p not in reads or not isinstance(init, T):
                    continue
                if own.op == "d":
                    w = lnot(self.kept(v, own))
                else:
                    w = lnot(where(v, own))
                for k, f in enumerate(fs):
                    if w is K0 or land(w, lnot(eq(f, b))) is not K0:
                        continue
                    for x in reads[p]:
                        if x.a[2 + k] is b:
                            out[x] = subst(init, {g: a for g, a in zip(fs, x.a[2:]) if g is not a})
                    break
        return out

    def kept(self, v, own):
        """Condition under which a 0/1 value is the old one."""
        phi = own.a[0]
        on, off = subst(v, {phi: K1}), subst(v, {phi: K0})
        return land(on, lnot(off))

    def simp_reads(self, v, m):
        return vsubst(v, m)

    def register_prefix(self, prefix, c, pid, init, fn):
        fs = self.formals(c)
        if isinstance(init, Seq):
            for k, (bs, g, e) in enumerate(init.segs):
                if bs == "tail":
                    continue

                def f(args, at, e=e, bs=bs):
                    return vsubst(e, {x: a for (x, _), a in zip(bs, args) if x is not a})
                prefix[(pid, k)] = f
            prefix[(pid, "t")] = lambda args, at: K0
            return

        def g(args, at):
            v = fn(at)
            if v is DEAD:
                return v
            m = {p: a for p, a in zip(fs, args) if p is not a}
            return subst(v, m) if m else v
        prefix[pid] = g

    def sub_prefix(self, v, prefix, b):
        if isinstance(v, Seq):
            segs = []
            for bs, g, e in v.segs:
                if bs == "tail":
                    segs.append((bs, g, e))
                else:
                    fx = lambda t: self.sub_prefix(t, prefix, b)
                    segs.append((tuple((x, tuple(fx(y) if isinstance(y, T) else y for y in d)) for x, d in bs), fx(g),
                                 fx(e) if isinstance(e, T) else e))
            return Seq(segs)
        for _ in range(6):
            ids = self.phi_ids(v) & set(prefix)
            if not ids:
                return v
            m = {}
            for x in subterms(v):
                if x.op == "f" and x.a[0] == "phi" and x.a[1] in prefix:
                    m[x] = prefix[x.a[1]](tuple(y for y in x.a[2:] if isinstance(y, T)), b)
            if any(w is DEAD for w in m.values()):
                pass
            v = subst(v, m)
        return v

    def last_value(self, v, b, dom):
        """Value of a variable bound anew in every iteration, after the loop."""
        _, _, stop, estop, fst, active, fix = self._close
        if b not in v.fv:
            return v
        if stop is not K0:
            return mk("f", "lastv", estop, subst(v, {b: fst})) if False else DEAD
        if dom[0] == "R" and isinstance(v, T) and not self.phi_ids(v) and \
                not any(l in (MISSING, DEAD, BOT) for _, l in leaves(v)) and DEAD not in subterms(v):
            n = count(dom)
            return ite(gt(n, K0), subst(v, {b: sub(n, K1)}), MISSING)
        return DEAD

    def close_cell(self, c, pid, init, phi, v, b, dom):
        """('val', post(), prefix(at)) or ('seq', post(pc0), {phi: prefix}) or ('dead',)-like."""
        if isinstance(v, Seq):
            return self.close_seq(c, pid, init, phi, v, b, dom)
        r = self.close_val(init, phi, v, b, dom)
        if r is None:
            return ("open",)
        return ("val",) + r

    def fold_cells(self, pend, start, startphi, phis, b, dom, stop):
        """Values that only a recurrence describes."""
        ok = {c: v for c, v in pend.items() if isinstance(v, T) and isinstance(start[c], T) and v is not DEAD and
              start[c] not in (MISSING, DEAD, UNDEF)}
        of = {phis[c]: c for c in ok}
        here = set().union(*[self.own_phi(c, p) for c, p in phis.items() if p is not None])
        stops = self.phi_ids(stop) & here
        while True:
            drop = [c for c in ok if (self.phi_ids(ok[c]) & here | stops) - set(of) or DEAD in subterms(ok[c])]
            if not drop:
                break
            for c in drop:
                del ok[c]
                of.pop(phis[c])
        if not ok or DEAD in subterms(stop):
            return {}
        s = fresh(None, "s")
        cells = sorted(ok, key=repr)
        at = {phis[c]: k for k, c in enumerate(cells)}
        tys = [typeof(startphi[c].a[0]) if startphi[c].op == "d" else typeof(startphi[c]) for c in cells]
        memo = {}

        def st(t):
            def hook(x):
                if x.op == "f" and x.a[0] == "phi" and x.a[1] in at:
                    k = at[x.a[1]]
                    return F("st", s, k, tys[k], *[st(y) for y in x.a[2:] if isinstance(y, T)])
                return None
            return rewrite(t, hook)
        fs = [tuple(self.formals(c)) for c in cells]
        n = len(cells)
        halted = F("st", s, n, BOOL01)
        comps = []
        for k, c in enumerate(cells):
            v = st(ok[c])
            if stop is not K0:
                v = ite(halted, F("st", s, k, tys[k], *fs[k]), v)
            comps.append((fs[k], start[c], v, tys[k]))
        if stop is not K0:
            comps.append(((), K0, lor(halted, st(stop)), BOOL01))
        out = {}
        for k, c in enumerate(cells):
            def pre(upto, k=k):
                b2 = fresh(("R", upto))
                s2 = fresh(None, "s")
                m = {b: b2, s: s2}
                return Fold(b2, ("R", upto), s2, [(f, i, subst(v, m), ty) for f, i, v, ty in comps], k, fs[k])
            out[c] = ("val", (lambda pre=pre: pre(dom[1])), pre)
        return out

    def close_val(self, init, phi, v, b, dom):
        I = self

        def act(g, x):
            _, _, stop, estop, fst, active, fix = I._close
            return land(g, active(x)) if stop is not K0 else g

        if phi.op == "d":
            # membership: kept, or overwritten by a value that does not depend on it
            phi = phi.a[0]
            on, off = subst(v, {phi: K1}), subst(v, {phi: K0})
            if land(off, lnot(on)) is not K0:
                return None
            v = ite(land(on, lnot(off)), phi, off)
        if phi not in [l for _, l in leaves(v)] and not (self.phi_ids(v) & {phi.a[1]}):
            # overwritten in every iteration
            if b not in v.fv:
                def post():
                    _, _, stop, estop, fst, active, fix = I._close
                    return ite(gt(count(dom), K0), v, init)
                return post, (lambda at: ite(gt(at, K0), v, init) if dom[0] == "R" else DEAD)
            if dom[0] == "R":
                def pre(at):
                    # value left by the previous iteration
                    return ite(gt(at, K0), subst(v, {b: sub(at, K1)}), init)

                def post():
                    _, _, stop, estop, fst, active, fix = I._close
                    n = count(dom)
                    if stop is K0:
                        return ite(gt(n, K0), subst(v, {b: sub(n, K1)}), init)
                    return DEAD
                return post, pre
            return None
        # additive
        if typeof(phi)[0] in ("int", "real", "any") and self.numeric_leaf(init) and \
                all(l is phi or self.numeric_leaf(l) for _, l in leaves(v)):
            try:
                diff = sub(v, phi)
            except Unsup:
                diff = None
            if diff is not None and not (self.phi_ids(diff) & {phi.a[1]}):
                def post():
                    _, _, stop, estop, fst, active, fix = I._close
                    if stop is K0:
                        return add(init, Sum(b, dom, diff))
                    t = add(init, K0)
                    run = mul(land(lnot(stop)), diff)
                    ex = mul(stop, diff)
                    if ex is not K0:
                        t = add(t, mul(estop, subst(restrict(diff, stop), {b: fst})))
                    if run is not K0:
                        t = add(t, Sum(b, dom, mul(active(b), run)))
                    return t

                def pre(at):
                    if dom[0] != "R":
                        return DEAD
                    b2 = fresh(("R", at))
                    return add(init, Sum(b2, ("R", at), subst(diff, {b: b2})))
                return post, pre
            sat = self.saturating(diff, phi, init) if diff is not None else None
            if sat is not None:
                lim, step = sat

                def val(s):
                    s = add(init, s)
                    return ite(lt(s, lim), s, lim)

                def post():
                    _, _, stop, estop, fst, active, fix = I._close
                    return val(Sum(b, dom, step)) if stop is K0 else DEAD

                def pre(at):
                    if dom[0] != "R":
                        return DEAD
                    b2 = fresh(("R", at))
                    return val(Sum(b2, ("R", at), subst(step, {b: b2})))
                return post, pre
        # conditional overwrite
        keep = where(v, phi)
        w = lnot(keep)
        if self.phi_ids(w) & {phi.a[1]}:
            return self.close_selfdep(init, phi, v, b, dom)
        V = restrict(v, w)
        if self.phi_ids(V) & {phi.a[1]}:
            return self.close_selfdep(init, phi, v, b, dom)
        sol = self.unique(b, w)
        if sol is not None:
            m = {b: sol}

            def inst(extra):
                _, _, stop, estop, fst, active, fix = getattr(I, "_close", (0, 0, K0, 0, 0, 0, 0))
                return ite(land(self.dom_guard(sol, dom), subst(w, m), extra), restrict(subst(V, m), subst(w, m)), init)

            def post():
                _, _, stop, estop, fst, active, fix = I._close
                if stop is K0:
                    return inst(K1)
                return inst(active(sol))
            return post, (lambda at: inst(lt(sol, at)) if dom[0] == "R" else DEAD)
        if dom[0] == "R" and b in V.fv:
            def last(n):
                if b not in w.fv:
                    return ite(land(w, gt(n, K0)), subst(V, {b: sub(n, K1)}), init)
                r = fresh(("R", n))
                at = sub(sub(n, K1), First(r, ("R", n), subst(w, {b: sub(sub(n, K1), r)})))
                b2 = fresh(("R", n))
                return ite(Exists(b2, ("R", n), subst(w, {b: b2})), restrict(subst(V, {b: at}), K1), init)

            def post():
                _, _, stop, estop, fst, active, fix = I._close
                if stop is K0:
                    return last(count(dom))
                ex, run = land(w, stop), land(w, lnot(stop))
                if run is K0:
                    return ite(I.at_exit(ex, b, dom)[0], subst(restrict(V, ex), {b: fst}), init)
                return DEAD
            return post, last
        if b not in V.fv:
            def post():
                _, _, stop, estop, fst, active, fix = I._close
                if stop is K0:
                    return ite(Exists(b, dom, w), V, init)
                ex, run = land(w, stop), land(w, lnot(stop))
                g = K0
                if ex is not K0:
                    g = lor(g, I.at_exit(ex, b, dom)[0])
                if run is not K0:
                    g = lor(g, Exists(b, dom, land(run, active(b))))
                return ite(g, V, init)

            def pre(at):
                if dom[0] != "R":
                    return DEAD
                return ite(Exists(*I.upto(dom, at, w, b)), V, init)
            return post, pre

        def post():
            _, _, stop, estop, fst, active, fix = I._close
            ex, run = land(w, stop), land(w, lnot(stop))
            if stop is not K0 and run is K0:
                # only written in the iteration that leaves the loop
                g = I.at_exit(ex, b, dom)[0]
                return ite(g, restrict(subst(restrict(V, ex), {b: fst}), K1), init)
            return DEAD
        return post, (lambda at: init if self._stops(w) else DEAD)

    def _stops(self, w):
        return False

    def limits(self, t, phi):
        """Constants L such that t tests phi >= L."""
        out, seen, st = [], set(), [t]
        while st:
            x = st.pop()
            if x.op != "d" or x in seen:
                continue
            seen.add(x)
            st.extend(x.a[2])
            if phi in x.a[0].fv or self.phi_ids(x.a[0]) & {phi.a[1]}:
                for k in (neg(phi), phi):
                    r = add(x.a[0], k)
                    if isnum(r) and r.op == "k":
                        for c in x.a[1]:
                            L = sub(K(c[0]), r) if k is not phi else sub(r, K(c[0]))
                            out.extend([L, add(L, K1), sub(L, K1)])
        return list(dict.fromkeys(out))

    def saturating(self, diff, phi, init):
        """(limit, step): phi grows by step (0 or 1) until it reaches the limit."""
        if typeof(phi)[0] != "int" or not isnum(init):
            return None
        for L in self.limits(diff, phi):
            p = le(L, phi)
            d = restrict(diff, lnot(p))
            if restrict(diff, p) is K0 and not (self.phi_ids(d) & {phi.a[1]}) and \
                    {l for _, l in leaves(d)} <= {K0, K1} and le(init, L) is K1:
                return L, d
        return None

    def idle_break(self, brk, retc, exc, new, events, start, startphi, mods, changed):
        """A break once a counter has reached its limit is irrelevant if nothing happens in any round after that."""
        if brk is K0 or retc is not K0 or exc is not K0 or any(self.__dict__.get("elses", ())[-1:]):
            return brk
        for c in mods:
            if c not in changed:
                continue
            phi, v = startphi[c], new[c]
            if not isinstance(phi, T) or phi.op != "f" or not isinstance(v, T) or typeof(phi)[0] != "int" or \
                    not (self.phi_ids(brk) & {phi.a[1]}):
                continue
            try:
                step = sub(v, phi)
            except Unsup:
                continue
            for L in self.limits(brk, phi):
                p = le(L, phi)
                if land(brk, lnot(p)) is not K0 or restrict(step, p) is not K0 or \
                        not all(isnum(l) and ge(l, K0) is K1 for _, l in leaves(step)):
                    continue
                if any(land(g, p) is not K0 for _, _, g, _ in events):
                    continue

                def idle(m):
                    if isinstance(new[m], T):
                        return restrict(new[m], p) is startphi[m]
                    if isinstance(new[m], Seq):
                        a, z = new[m].segs, startphi[m].segs
                        return len(a) >= len(z) and all(
                            x[:2] == y[:2] and (x[2] is y[2] or isinstance(x[2], T) and restrict(x[2], p) is y[2])
                            for x, y in zip(a, z)) and all(isinstance(x[1], T) and land(x[1], p) is K0 for x in a[len(z):])
                    return new[m] is startphi[m]
                if not all(idle(m) for m in mods if m in changed):
                    continue
                for m in list(self.cells):
                    if m not in start and m[0] == "var":
                        self.cells[m] = DEAD
                return K0
        return brk

    folds = False

    def close_selfdep(self, init, phi, v, b, dom):
        return None

    def numeric_leaf(self, l):
        return l not in (BOT, DEAD, MISSING) and typeof(l)[0] in ("int", "real") or l.op in ("p", "sum") or \
            (l.op == "f" and l.a[0] == "ref" and self.objs.get(l.a[1]) and self.objs[l.a[1]].kind == "var")

    def dom_guard(self, sol, dom):
        return domain_guard(sol, dom)

    def unique(self, b, w):
        """A value forced on b by w (w implies b == value)."""
        seen, st = set(), [w]
        cand = []
        while st:
            t = st.pop()
            if t.op != "d" or t in seen:
                continue
            seen.add(t)
            q, cuts, ch = t.a
            if b in q.fv and typeof(q)[0] == "int":
                cs = [c[0] for c in cuts]
                from .term import rng
                lo, hi = rng(q)
                pts = [cs[i] for i in range(1, len(cs)) if cs[i] - cs[i - 1] == 1]
                if lo is not None and cs and cs[0] == lo:
                    pts.append(Fraction(lo))
                if hi is not None and cs and cs[-1] == hi - 1:
                    pts.append(Fraction(hi))
                for p in pts:
                    s = solve_for(b, q, p)
                    if s is not None:
                        cand.append((q, p, s))
            st.extend(ch)
        from .term import le_cut
        for q, p, s in cand:
            is_p = land(le_cut(q, (p, 0)), lnot(le_cut(q, (p - 1, 0))))
            if land(w, lnot(is_p)) is K0:
                if s[0] == "v":
                    return s[1]
                return F("pos", s[1], s[2])
        return None

    def close_seq(self, c, pid, init, phi, v, b, dom):
        I = self
        n = len(init.segs)
        tail_at = [k for k, s in enumerate(v.segs) if s[0] == "tail" and k >= n]
        backwards = n == 0 and len(v.segs) == 2 and tail_at == [1] and not v.segs[0][0] and dom[0] == "R"
        if backwards:
            # built from the front: the list in reverse order is built from the end
            v = Seq((v.segs[1], v.segs[0]))
            tail_at = [0]
        if tail_at != [n] or v.segs[n][1] != (pid, "t"):
            raise Unsup("list rebuilt inside a loop")
        pre = {}
        elems = []
        for k in range(n):
            bs, g, e = v.segs[k]
            bs0, g0, e0 = init.segs[k]
            if bs0 == "tail":
                if v.segs[k] != init.segs[k]:
                    raise Unsup("list rebuilt inside a loop")
                elems.append(None)
                continue
            if not isinstance(e, T) or e is phi.segs[k][2]:
                elems.append((lambda e0=e0: e0))
                pre[(pid, k)] = lambda args, at, e0=e0, bs=bs: vsubst(e0, {x: a for (x, _), a in zip(bs, args) if x is not a})
                continue
            if g is not phi.segs[k][1]:
                raise Unsup("list element removed inside a loop")
            r = self.close_val(e0, phi.segs[k][2], e, b, dom)
            if r is None:
                r = (lambda: DEAD), (lambda at: DEAD)
            elems.append(r[0])

            def f(args, at, r=r, bs=bs):
                t = r[1](at)
                return t if t is DEAD else subst(t, {x: a for (x, _), a in zip(bs, args) if x is not a})
            pre[(pid, k)] = f
        tail = self.one_per_round(v.segs[n + 1:], dom, b)
        own = self.own_phi(c, pid)
        for bs, g, e in tail:
            if bs == "tail":
                raise Unsup("list rebuilt inside a loop")
            if self.phi_ids(Seq([(bs, g, e)])) & (own - {(pid, "t")}):
                raise Unsup("appended element depends on the list")
        tl = seqlen(Seq(tail))

        def plen(args, at):
            if not tail:
                return K0
            if dom[0] != "R":
                return DEAD
            b2 = fresh(("R", at))
            return Sum(b2, ("R", at), subst(tl, {b: b2}))
        if not (self.phi_ids(tl) & {(pid, "t")}):
            pre[(pid, "t")] = plen
        else:
            raise Unsup("list growth depends on its own length")

        def post(pc0):
            _, _, stop, estop, fst, active, fix = I._close
            segs = []
            for k in range(n):
                bs, g, e = init.segs[k]
                if bs == "tail":
                    segs.append((bs, g, e))
                    continue
                x = elems[k]()
                if isinstance(x, T) and isinstance(e, T):
                    x = ite(pc0, x, e)
                segs.append((bs, g, x))
            for bs, g, e in tail:
                fx = lambda t: I.sub_prefix(t, pre, b)
                g, e = fx(g), (fx(e) if isinstance(e, T) else e)
                sol = I.unique(b, g) if stop is K0 else None
                if sol is not None:
                    m = {b: sol}
                    segs.append((tuple((x, tuple(subst(y, m) if isinstance(y, T) else y for y in d)) for x, d in bs),
                                 I.rel(c[1], land(pc0, domain_guard(sol, dom), subst(g, m))), vsubst(e, m)))
                    continue
                for bs2, g2, (e2,) in I.wrap(b, dom, bs, g, (e,)):
                    segs.append((bs2, I.rel(c[1], land(pc0, g2)), e2))
            if backwards:
                if stop is not K0:
                    raise Unsup("list built from the front in an interrupted loop")
                segs = I.reverse_segs(segs)
            return Seq(segs)
        return ("seq", post, pre)

    def apart(self, s, t, b):
        """Is there a condition that does not change during the loop over b and separates the two segments?"""
        own = {b} | {x for q in (s, t) for x, _ in q[0]}
        for q, cut in tests(s[1]):
            if q.fv & own or self.phi_ids(q):
                continue
            e = mk("d", q, (cut,), (K0, K1))
            if any(land(s[1], lnot(w)) is K0 and land(t[1], w) is K0 for w in (e, lnot(e))):
                return True
        return False

    def one_per_round(self, tail, dom, b):
        """What one round of a loop appends, as a single segment."""
        if len(tail) < 2 or (dom[0] == "R" and isk(dom[1]) and dom[1].a[0] <= 1):
            return tail
        out = []
        for bs, g, e in tail:
            if out and out[-1][0] == bs == () and isinstance(e, T) and isinstance(out[-1][2], T) and \
                    land(out[-1][1], g) is K0:
                g0, e0 = out[-1][1:]
                out[-1] = ((), lor(g0, g), ite(g0, e0, e) if e is not e0 else e)
            else:
                out.append((bs, g, e))
        if len(out) > 1:
            if any(bs != () or not isinstance(e, T) for bs, g, e in out):
                if all(self.apart(s, t, b) for k, s in enumerate(out) for t in out[:k]):
                    return out
                raise Unsup("several lists appended in one round")
            b = fresh(("R", K(len(out))))
            g, e = K0, out[-1][2]
            for k, (_, gk, ek) in enumerate(out):
                g = lor(g, land(eq(b, K(k)), gk))
            for k in range(len(out) - 2, -1, -1):
                e = ite(eq(b, K(k)), out[k][2], e)
            out = [(((b, ("R", K(len(out)))),), g, e)]
        return out

    # -- while ------------------------------------------------------------
    def while_loop(self, test, body):
        """A while loop whose condition bounds a counter is a for loop; otherwise unsupported."""
        # trial: find the loop counter
        cands = [n.id for n in ast.walk(test) if isinstance(n, ast.Name)]
        fr = self.frames[-1]
        for name in dict.fromkeys(cands):
            step = counter_step(body, name)
            if step is None:
                continue
            init = self.cells.get(("var", fr.fid, name))
            if not isinstance(init, T):
                continue
            for lim, rest in split_limit(test, name, step):
                r = self.try_counted(name, init, step, lim, rest, test, body)
                if r is not None:
                    return r
        if self.folds:
            return self.while_rounds(test, body)
        raise Unsup("while loop without a recognised bound")

    def while_rounds(self, test, body):
        """while test: body  as a loop over its rounds, whose number is the first round at which the test fails."""
        inf = mk("s", "inf")
        n = fresh(("R", inf), "n")
        tests = []

        def one(b):
            tests.append(self.cond(test))
            self.block(body)
        before = dict(self.cells)
        ev0 = len(self.events)
        brk = self.loop(("R", n), one)
        b, dom, stop, _, _, active, fix = self._close
        c = fix(tests[-1])
        if DEAD in subterms(c):
            raise Unsup("while loop whose condition is not understood")
        go = lnot(c) if stop is K0 else lor(lnot(c), lnot(active(b)))
        BD[b] = ("R", inf)
        m = {n: First(b, ("R", inf), go)}
        for cell, v in list(self.cells.items()):
            if v is not before.get(cell):
                self.cells[cell] = vsubst(v, m) if isinstance(v, (T, Seq)) else v
        self.events[ev0:] = [(k, bs if bs == "tail" else tuple((x, tuple(subst(y, m) if isinstance(y, T) else y for y in d)) for x, d in bs),
                              subst(g, m), tuple(vsubst(x, m) if isinstance(x, (T, Seq)) else x for x in d))
                             for k, bs, g, d in self.events[ev0:]]
        for f in self.frames:
            if isinstance(f.ret, T):
                f.ret = subst(f.ret, m)
            f.retc = subst(f.retc, m)
        self.pc, self.exc = subst(self.pc, m), subst(self.exc, m)
        return subst(brk, m)

    def try_counted(self, name, init, step, lim, rest, test, body):
        """while name < limit (and rest): body with a final name += 1."""
        op, bound = lim
        # the bound may not change inside the loop
        names = {n.id for n in ast.walk(bound) if isinstance(n, ast.Name)}
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names:
                    return None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        "append", "extend", "pop", "remove", "insert", "add", "clear"):
                    if any(isinstance(x, ast.Call) for x in ast.walk(bound)) and ast.unparse(n.func.value) in ast.unparse(bound):
                        return None
        hi = self.ev(bound)
        if step == 1:
            n = sub(hi, init)
            if op == "<=":
                n = add(n, K1)
        else:
            n = sub(init, hi)
            if op == ">=":
                n = add(n, K1)
        fr = self.frames[-1]
        cell = ("var", fr.fid, name)
        own = body[:-1]

        def one(b):
            self.cells[cell] = add(init, b) if step == 1 else sub(init, b)
            if rest is not None:
                c = self.cond(rest)
                self.branch(c, lambda: None, lambda: self.s_Break(None))
            self.block(body[:-1])

        start = self.cells.pop(cell)
        ctl_brk = self.loop(("R", n), lambda b: self._counted_body(b, cell, init, step, rest, body))
        # value of the counter afterwards
        _, _, stop, estop, fst, active, fix = self._close if ctl_brk is not K0 else (0, 0, K0, K0, None, 0, 0)
        cnt = count(("R", n))
        end = add(init, cnt) if step == 1 else sub(init, cnt)
        if ctl_brk is not K0:
            end = ite(estop, add(init, fst) if step == 1 else sub(init, fst), end)
        self.cells[cell] = end
        return ctl_brk

    def _counted_body(self, b, cell, init, step, rest, body):
        self.cells[cell] = add(init, b) if step == 1 else sub(init, b)
        if rest is not None:
            c = self.cond(rest)
            self.branch(c, lambda: None, lambda: self.s_Break(None))
        self.block(body[:-1])

    # ------------------------------------------------------------ iteration
    def iter_segs(self, it):
        """Segments (binders, guard, element or thunk)."""
        if isinstance(it, RangeV):
            a, b = it.a, it.b
            if it.step == -1:
                n = sub(a, b)
                i = fresh(("R", n))
                return [(((i, ("R", n)),), K1, sub(a, i))]
            if isnum(a) and isnum(b) and b.a[0] - a.a[0] <= 8:
                return [((), K1, K(v)) for v in range(a.a[0], b.a[0])]
            w = sub(b, a) if a.op != "d" and b.op != "d" else None
            if w is not None and isnum(w) and w.a[0] <= 8:
                return [((), K1, add(a, K(v))) for v in range(0, int(w.a[0]))]
            if isnum(a) and a.a[0] >= 0 and not isnum(b):
                u = self.unranked(b)
                if u is not None and a is K0:
                    i, dom, g = u
                    return [(((i, dom),), g, rank_of(i, dom, g))]
                i = fresh(("R", b))
                return [(((i, ("R", b)),), ge(i, a), i)]
            if b.op == "d" or a.op == "d":
                raise Unsup("range with conditional bounds")
            if not isnum(a):
                i = fresh(("R", b))
                if nonneg(a):
                    return [(((i, ("R", b)),), ge(i, a), i)]
            n = sub(b, a)
            i = fresh(("R", n))
            return [(((i, ("R", n)),), K1, add(i, a))]
        if isinstance(it, IterV):
            return self.iter_segs_view(it)
        if isinstance(it, GenV):
            return self.gen_segs(it)
        if self.is_ref(it, "list"):
            return list(self.seq(it).segs)
        if self.is_ref(it, "set"):
            return self.set_segs(it)
        if self.is_ref(it, "dict"):
            return self.dict_segs(it, "keys")
        if isinstance(it, T):
            if it.op == "f" and it.a[0] == "tuple":
                return [((), K1, x) for x in it.a[1:]]
            if it.op == "d":
                out = []
                for c, x in leaves(it):
                    if x is NONE:
                        raise Unsup("iteration over a conditional value")
                    out += [(gens, land(c, g), v) for gens, g, v in self.iter_segs(x)]
                return out
            ty = typeof(it)
            if ty[0] in ("list", "arr", "arr2"):
                s = self.sym_list(it)
                return list(s.segs)
            if ty[0] == "set":
                u = self.universe_of(it)
                ids = self.id_segs(it)
                if ids and u is K0:
                    return ids
                if ids:
                    raise Unsup("mixed set")
                if u is not None:
                    return self.range_segs(u, lambda e: self.set_memb(e, it))
                e = fresh(("M", it))
                return [(((e, ("M", it)),), K1, e)]
        raise Unsup("iteration over %s" % (show(it) if isinstance(it, T) else type(it).__name__))

    def universe_of(self, t):
        from .term import elem_universe
        ty = typeof(t)
        if self.univ and ty[0] == "set" and ty[1][0] == "int" and len(ty[1]) > 3 and ty[1][3] in self.univ:
            return self.univ[ty[1][3]]
        return elem_universe(t)

    def range_segs(self, u, memb):
        """Numbers below u that satisfy memb."""
        r = self.unranked(u)
        if r is not None:
            i, dom, g = r
            e = rank_of(i, dom, g)
            return [(((i, dom),), land(g, by_rank(memb(e), i, dom, g)), e)]
        e = fresh(("R", u))
        return [(((e, ("R", u)),), memb(e), e)]

    def id_segs(self, it):
        out = []
        for cell in self.ids_in(it):
            oid, args = self.set_root(it)
            kk = cell[2]
            kf = self.keyformals(oid, kk)
            inn = self.rd(cell, oid, args)
            bs, mm, key = self.id_binders(kk, kf)
            out.append((tuple(bs), subst(inn, mm), key))
        return out

    def id_binders(self, kk, kf):
        bs, m = [], {}
        for p in self.params_of(kk[1]):
            dom = BD.get(p)
            if dom is None:
                raise Unsup("dictionary view")
            b = fresh(tuple(subst(x, m) if isinstance(x, T) else x for x in dom))
            m[p] = b
            bs.append((b, BD[b]))
        ref = mk("f", "ref", kk[1], *[b for b, _ in bs])
        return bs, {f: b for f, (b, _) in zip(kf, bs)}, ref if kk[0] == "ref" else F(kk[0], ref)

    def set_segs(self, it):
        ids = self.id_segs(it)
        oid = it.a[1]
        e0 = self.setelt(oid)
        if ids:
            if self.rd(("set", oid), oid, it.a[2:]) is not K0:
                raise Unsup("mixed set")
            return ids
        c = self.rd(("set", oid), oid, it.a[2:])
        u = self.objs[oid].tag
        if u is None:
            u = self.guess_universe(c, e0)
        if u is None and self.folds:
            u = mk("s", "inf")      # any non-negative number
        if u is None:
            raise Unsup("iteration over a set of unknown universe")
        return self.range_segs(u, lambda e: subst(c, {e0: e}))

    def guess_universe(self, c, e):
        from .term import elem_universe
        us = set()
        for t in subterms(c):
            if t.op == "f" and t.a[0] == "memb" and t.a[1] is e:
                us.add(elem_universe(t.a[2]))
        us.discard(None)
        return us.pop() if len(us) == 1 else None

    def unranked(self, n):
        """If n counts the elements of a range satisfying a condition: (binder, dom, condition)."""
        from .term import opened, lit
        if n.op != "sum":
            return None
        bs, doms, mono, lits = opened(n)
        if len(bs) != 1 or mono:
            return None
        if doms[0][0] != "R":
            return None
        g = K1
        for q, c in lits:
            g = land(g, lnot(apply(lambda x: _lecut(x, c), q)))
        return bs[0], doms[0], g

    def sym_list(self, t):
        """Content of a symbolic list (possibly changed by the code)."""
        n = self.sym_len(t)
        i = fresh(("R", n))
        return Seq([(((i, ("R", n)),), K1, self.sym_elem(t, i))])

    def sym_len(self, t):
        n = F("len", t)
        return n

    def sym_elem(self, t, i):
        return F("sel", t, i)

    def iter_segs_view(self, it):
        k = it.kind
        if k == "enumerate":
            out = []
            off = it.args[1] if len(it.args) > 1 else K0
            segs = self.iter_segs(it.args[0])
            for bs, g, e in segs:
                if bs == "tail":
                    raise Unsup("enumerate over a list under construction")
                ix = self.position(bs, g)
                pos = add(off, ix)
                e = e() if callable(e) else e
                out.append((bs, g, self.mktuple([pos, e])))
                off = add(off, seqlen(Seq([(bs, g, NONE)])))
            return out
        if k == "zip":
            lists = [self.iter_segs(a) for a in it.args]
            if len({len(l) for l in lists}) != 1:
                if all(all(not s[0] for s in l) for l in lists):
                    n = min(len(l) for l in lists)
                    lists = [l[:n] for l in lists]
                else:
                    # index one long list by the positions of another
                    return self.zip_by_index(it)
            out = []
            for parts in zip(*lists):
                bs0, g0, e0 = parts[0]
                es = [e0]
                for a, (bs, g, e) in zip(it.args[1:], parts[1:]):
                    if len(bs) != len(bs0) or "tail" in (bs, bs0):
                        return self.zip_by_index(it)
                    m = {}
                    for (x, dx), (y, dy) in zip(bs, bs0):
                        if dx[0] != dy[0] or subst(dx[1], m) is not dy[1]:
                            return self.zip_by_index(it)
                        m[x] = y
                    if subst(g, m) is not g0:
                        return self.zip_by_index(it)
                    es.append(vsubst(e, m))
                out.append((bs0, g0, self.mktuple(es)))
            return out
        if k == "reversed":
            a = it.args[0]
            if isinstance(a, RangeV) and a.step == 1:
                return self.iter_segs(RangeV(sub(a.b, K1), sub(a.a, K1), -1))
            return self.reverse_segs(self.force(self.iter_segs(a)))
        if k in ("keys", "values", "items"):
            return self.dict_segs(it.args[0], k)
        if k == "map":
            f, a = it.args
            return [(bs, g, (lambda e=e: self.call(f, [e() if callable(e) else e], {}))) for bs, g, e in self.iter_segs(a)]
        if k == "filter":
            f, a = it.args
            out = []
            for bs, g, e in self.iter_segs(a):
                e = e() if callable(e) else e
                c = truth(self.call(f, [e], {}))
                out.append((bs, land(g, c), e))
            return out
        raise Unsup("iteration over %s" % k)

    def zip_by_index(self, it):
        # the length is that of the shortest; only handled when the lengths are equal by construction
        lists = [self.iter_segs(a) for a in it.args]
        lens = [seqlen(Seq(l)) for l in lists]
        base = lists[0]
        shorter = []        # lists that may end before the first one
        for x in lens:
            if self.simp(ge(x, lens[0])) is not K1 and x not in shorter:
                shorter.append(x)
        out = []
        off = K0
        for bs, g, e in base:
            ix = add(off, self.position(bs, g))
            end = add(off, seqlen(Seq([(bs, g, NONE)])))
            here = land(g, *[lt(ix, x) for x in shorter if self.simp(ge(x, end)) is not K1])
            es = [e]
            for a in it.args[1:]:
                es.append(self.under(here, lambda: self.get_item(self.as_list(a), ix)) if shorter else self.get_item(self.as_list(a), ix))
            out.append((bs, here, self.mktuple(es)))
            off = add(off, seqlen(Seq([(bs, g, NONE)])))
        return out

    def as_list(self, a):
        if isinstance(a, T):
            return a
        return self.newlist(self.force(self.iter_segs(a)))

    def force(self, segs):
        return [(bs, g, e() if callable(e) else e) for bs, g, e in segs]

    def position(self, bs, g):
        """Index of the current element inside its segment."""
        if not bs:
            return K0
        if len(bs) == 1 and bs[0][1][0] == "R":
            return rank_of(bs[0][0], bs[0][1], g)
        raise Unsup("position inside nested segments")

    # ------------------------------------------------------------ comprehensions
    def gen_segs(self, gv):
        out = self.run_comp(gv.node, gv)
        return list(self.seq(out).segs)

    def run_comp(self, node, gv=None):
        out = self.newlist([])
        self.nfid += 1
        fr = Frame(self.frames[-1].fn, self.nfid, self.mod, self.frames[-1].cls)
        fr.parent = gv.env if gv else self.frames[-1]
        first = self.ev(node.generators[0].iter)
        self.frames.append(fr)
        try:
            self.comp_gens(node.generators, 0, first, lambda: self.append(out, [((), K1, self.ev_term(node.elt))]))
        finally:
            self.frames.pop()
        return out

    def comp_gens(self, gens, k, first, emit):
        g = gens[k]
        it = first if k == 0 else self.ev(g.iter)

        def body(v):
            self.assign(g.target, v)
            self.comp_ifs(list(g.ifs), lambda: emit() if k + 1 == len(gens) else self.comp_gens(gens, k + 1, None, emit))
        self.iterate(it, body)

    def comp_ifs(self, ifs, then):
        if not ifs:
            return then()
        c = self.cond(ifs[0])
        self.branch(c, lambda: self.comp_ifs(ifs[1:], then), lambda: None)

    # ------------------------------------------------------------ expressions
    def ev_term(self, e):
        v = self.ev(e)
        if not isinstance(v, T):
            v = self.materialise(v)
        return v

    def materialise(self, v):
        if isinstance(v, (RangeV, IterV, GenV)):
            return self.newlist(self.force(self.iter_segs(v)))
        raise Unsup("a %s where a value is needed" % type(v).__name__)

    def cond(self, e):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            r = self.cond(e.values[0])
            for x in e.values[1:]:
                sel = r if isand else lnot(r)
                c = self.under(sel, lambda: self.cond(x))
                r = land(r, c) if isand else lor(r, c)
            return self.simp(r)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return lnot(self.cond(e.operand))
        v = self.ev(e)
        return self.simp(self.truthy(v))

    def under(self, c, fn):
        """Evaluates fn under the additional condition c; an impossible condition yields false."""
        pc0 = self.pc
        self.pc = land(pc0, c)
        if self.pc is K0:
            self.pc = pc0
            return K0
        try:
            r = fn()
        finally:
            dead = self.pc
            self.pc = pc0
        return r

    def truthy(self, v):
        if isinstance(v, T):
            if v.op == "d":
                return apply(lambda x: self.truthy(x), v)
            if self.is_ref(v, "list"):
                return gt(seqlen(self.seq(v)), K0)
            if self.is_ref(v, "set"):
                return gt(self.b_len(v), K0)
            return truth(v)
        if isinstance(v, (FuncV, ClsV, ExtV, MethV)):
            return K1
        raise Unsup("truth of %s" % type(v).__name__)

    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsup("expression %s" % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is Ellipsis or isinstance(v, (bytes, complex)):
            raise Unsup("constant")
        return K(v)

    def e_Name(self, e):
        return self.load_name(e.id)

    def load_name(self, name):
        fr = self.frames[-1] if self.frames else None
        while fr is not None:
            v = self.cells.get(("var", fr.fid, name), UNDEF)
            if v is not UNDEF:
                if v is DEAD:
                    raise Unsup("value of %s after the loop is not understood" % name)
                return self.simp(v)
            fr = fr.parent
        r = self.prog.resolve(self.mod, name) if self.mod is not None else None
        return self.resolved(r, name)

    def resolved(self, r, name):
        if r is None:
            return ExtV("builtins." + name)
        if r[0] == "class":
            return ClsV(r[1])
        if r[0] == "func":
            return FuncV(r[1])
        if r[0] == "mod":
            return ModV(r[1])
        if r[0] == "const":
            return self.shared_const(r[1], r[1], r[2])
        return ExtV(r[1])

    def e_Attribute(self, e):
        return self.get_attr(self.ev(e.value), e.attr)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            return self.slice(o, e.slice)
        return self.get_item(o, self.ev_index(e.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Tuple):
            if any(isinstance(x, ast.Slice) for x in s.elts):
                raise Unsup("array slice")
            return self.mktuple([self.ev(x) for x in s.elts])
        if isinstance(s, ast.Slice):
            raise Unsup("slice")
        return self.ev_term(s)

    def mktuple(self, vs):
        vs = [v if isinstance(v, T) else self.materialise(v) for v in vs]
        return F("tuple", *vs)

    def e_Tuple(self, e):
        return self.mktuple([self.ev(x) for x in e.elts])

    def e_List(self, e):
        out = self.newlist([])
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.list_extend(out, self.ev(x.value))
            else:
                self.append_raw(out, self.ev_term(x))
        return out

    def append_raw(self, ref, v):
        cell = ("list", ref.a[1])
        self.cells[cell] = Seq(self.cells[cell].segs + (((), K1, v),))

    def e_Set(self, e):
        vs = [self.ev_term(x) for x in e.elts]
        return self.newset(lambda x: lor(*[eq(x, v) for v in vs]))

    def e_Dict(self, e):
        r = self.alloc("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsup("dict unpacking")
            self.dict_set(r, self.ev_term(k), self.ev_term(v))
        return r

    def e_ListComp(self, e):
        return self.run_comp(e)

    def e_GeneratorExp(self, e):
        return GenV(e, self.frames[-1], self.mod, self.frames[-1].cls)

    def e_SetComp(self, e):
        out = self.newset()
        self.nfid += 1
        fr = Frame(self.frames[-1].fn, self.nfid, self.mod, self.frames[-1].cls)
        fr.parent = self.frames[-1]
        first = self.ev(e.generators[0].iter)
        self.frames.append(fr)
        try:
            self.comp_gens(e.generators, 0, first, lambda: self.set_add(out, self.ev_term(e.elt)))
        finally:
            self.frames.pop()
        return out

    def e_DictComp(self, e):
        out = self.alloc("dict")
        self.nfid += 1
        fr = Frame(self.frames[-1].fn, self.nfid, self.mod, self.frames[-1].cls)
        fr.parent = self.frames[-1]
        first = self.ev(e.generators[0].iter)
        self.frames.append(fr)
        try:
            self.comp_gens(e.generators, 0, first,
                           lambda: self.dict_set(out, self.ev_term(e.key), self.ev_term(e.value)))
        finally:
            self.frames.pop()
        return out

    def e_Lambda(self, e):
        self.captured = getattr(self, "captured", set()) | {self.frames[-1].fid}
        return FuncV(e, env=self.frames[-1], cls=(self.mod, self.frames[-1].cls))

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if c is K1:
            return self.ev(e.body)
        if c is K0:
            return self.ev(e.orelse)
        out = []
        a = self.under(c, lambda: self.ev(e.body))
        b = self.under(lnot(c), lambda: self.ev(e.orelse))
        if not isinstance(a, T) or not isinstance(b, T):
            raise Unsup("conditional expression of non-terms")
        return ite(c, a, b)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        # value semantics: only when all operands are truth values
        v = self.ev(e.values[0])
        for x in e.values[1:]:
            c = self.simp(self.truthy(v))
            if c is (K0 if isand else K1):
                return v
            w = self.under(c if isand else lnot(c), lambda: self.ev(x))
            if not isinstance(v, T) or not isinstance(w, T):
                raise Unsup("boolean operator on non-terms")
            v = ite(c, w, v) if isand else ite(c, v, w)
        return v

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return lnot(self.cond(e.operand))
        v = self.ev(e.operand)
        if isinstance(e.op, ast.USub) and isinstance(v, T):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsup("unary operator")

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        for x, y, lft in ((a, b, True), (b, a, False)):
            if isinstance(op, ast.Mult) and (self.is_ref(x, "list")) and isinstance(y, T):
                return self.list_repeat(x, y)
        if isinstance(op, ast.Add) and (self.listlike(a) and self.listlike(b)):
            return self.list_concat(a, b)
        if self.setlike(a) and self.setlike(b):
            return self.set_op(op, a, b)
        if not isinstance(a, T) or not isinstance(b, T):
            raise Unsup("operator on %s" % type(a).__name__)
        if isinstance(op, ast.Add):
            if "str" in (self.strish(a), self.strish(b)):
                return F("strf", a, b)
            return self.num(add, a, b)
        if isinstance(op, ast.Sub):
            return self.num(sub, a, b)
        if isinstance(op, ast.Mult):
            return self.num(mul, a, b)
        if isinstance(op, ast.Div):
            return F("div", a, b)
        if isinstance(op, ast.FloorDiv):
            return F("floor", F("div", a, b))
        if isinstance(op, ast.Mod):
            if self.strish(a) == "str":
                return F("strf", a)
            return F("mod", a, b)
        if isinstance(op, ast.Pow):
            if isnum(a) and a.a[0] == 2:
                return F("pow2", b)
            if isnum(b) and b.a[0] == 2:
                return mul(a, a)
            if isnum(a) and isnum(b):
                return K(Fraction(a.a[0]) ** b.a[0])
            return F("pow", a, b)
        if isinstance(op, (ast.LShift,)) and a is K1:
            return F("pow2", b)
        if isinstance(op, ast.BitAnd):
            ta, tb = [[typeof(l) for _, l in leaves(x)] for x in (a, b)]
            if all(t[0] == "int" for t in ta + tb) and any(all(t[1] is not None and t[1] >= 0 for t in q) for q in (ta, tb)):
                return apply(lambda x, y: F("bitand", x, y), a, b)
        raise Unsup("operator %s" % type(op).__name__)

    def num(self, fn, a, b):
        return fn(a, b)

    def strish(self, v):
        if isinstance(v, T):
            t = typeof(v)
            return t[0]
        return None

    def listlike(self, v):
        return self.is_ref(v, "list") or (isinstance(v, T) and v.op != "d" and typeof(v)[0] in ("list", "tuple"))

    def setlike(self, v):
        return self.is_ref(v, "set") or (isinstance(v, T) and v.op != "d" and typeof(v)[0] == "set") or \
            (isinstance(v, T) and v.op == "d" and all(self.setlike(l) for _, l in leaves(v)))

    def e_Compare(self, e):
        l = self.ev(e.left)
        r = K1
        for op, x in zip(e.ops, e.comparators):
            v = self.ev(x)
            r = land(r, self.compare(op, l, v))
            l = v
        return r

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(b, a)
            return c if isinstance(op, ast.In) else lnot(c)
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.equal(a, b)
            return c if isinstance(op, ast.Is) else lnot(c)
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return lnot(self.equal(a, b))
        if not isinstance(a, T) or not isinstance(b, T):
            raise Unsup("comparison")
        f = {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge}[type(op)]
        return f(a, b)

    def modelvar(self, t):
        if not isinstance(t, T):
            return False
        return any(x.op == "f" and x.a[0] == "ref" and x.a[1] in self.objs and self.objs[x.a[1]].kind == "var"
                   for x in subterms(t)) and (t.op in ("p", "sum") or self.is_ref(t, "var") or t.op == "d")

    def equal(self, a, b):
        if isinstance(a, PyVal) or isinstance(b, PyVal):
            if a is b:
                return K1
            if NONE in (a, b):
                return K0
            if isinstance(a, ExtV) and isinstance(b, ExtV):
                return K1 if a.name == b.name else K0
            raise Unsup("comparison of functions")
        if (self.modelvar(a) and typeof(b)[0] in ("int", "real")) or (self.modelvar(b) and typeof(a)[0] in ("int", "real")):
            d = sub(a, b)
            return land(le(d, K0), ge(d, K0))
        if self.setlike(a) and self.setlike(b):
            return self.set_equal(a, b)
        if (self.listlike(a) or self.listlike(b)) and (self.is_ref(a) or self.is_ref(b)) and NONE not in (a, b):
            return self.list_equal(a, b)
        return eq(a, b)

    def list_equal(self, a, b):
        return self.equal_elem(a, b)

    def e_JoinedStr(self, e):
        return F("strf", *[self.ev_any(v.value) for v in e.values if isinstance(v, ast.FormattedValue)])

    def ev_any(self, e):
        v = self.ev(e)
        return v if isinstance(v, T) else NONE

    def e_Starred(self, e):
        raise Unsup("starred")

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Yield(self, e):
        fr = self.frames[-1]
        self.append(fr.yields, [((), K1, self.ev_term(e.value))])
        return NONE

    # ------------------------------------------------------------ attributes
    def get_attr(self, o, name):
        if isinstance(o, T):
            if o.op == "d":
                return self.by_case(o, lambda x: self.get_attr(x, name))
            if self.is_ref(o):
                return self.ref_attr(o, name)
            ty = typeof(o)
            if ty[0] == "rec":
                return self.rec_attr(o, name)
            if ty[0] in ("arr", "arr2") and name == "shape":
                if ty[0] == "arr2":
                    return self.mktuple([F("len", o), F("dim", o)])
                return self.mktuple([F("len", o)])
            if ty[0] == "arr2" and name == "T":
                raise Unsup("transpose")
            return MethV(o, name)
        if isinstance(o, ModV):
            return self.resolved(self.prog.resolve(o.m, name), name)
        if isinstance(o, ExtV):
            c = self.ext_const(o.name + "." + name)
            return c if c is not None else ExtV(o.name + "." + name)
        if isinstance(o, SuperV):
            f = self.prog.method(self.obj(o.obj).cls, name, after=o.after)
            if f is None:
                return ExtV("object." + name)
            return FuncV(f, o.obj)
        if isinstance(o, ClsV):
            f = self.prog.method(o.c, name)
            if f is not None:
                return FuncV(f)
            k = self.prog.class_const(o.c, name)
            if k is not None:
                return self.shared_const(k[0], k[0], k[1])
            return ExtV("class." + name)
        if isinstance(o, (IterV, GenV, RangeV)):
            return self.get_attr(self.materialise(o), name)
        raise Unsup("attribute %s" % name)

    def by_case(self, o, fn):
        """Applies fn to every possible value of o."""
        r = None
        for c, l in leaves(o):
            c = self.simp(c)
            cc = land(self.pc, c)
            if cc is K0:
                continue
            pc0 = self.pc
            self.pc = cc
            if l is BOT or l is MISSING:
                self.pc = pc0
                continue
            v = fn(l)
            self.pc = pc0
            if r is None:
                r = v
            else:
                if not isinstance(v, T) or not isinstance(r, T):
                    if isinstance(v, MethV) and isinstance(r, MethV):
                        raise Unsup("method of a conditional value")
                    raise Unsup("conditional non-term")
                r = ite(c, v, r)
        if r is None:
            raise Unsup("no possible value")
        return r

    def ref_attr(self, o, name):
        ob = self.obj(o)
        if ob.kind == "inst":
            v = self.getattr_cell(o, name)
            if v is not UNDEF:
                if v is DEAD:
                    raise Unsup("value of attribute %s is not understood" % name)
                return self.simp(v)
            f = self.prog.method(ob.cls, name)
            if f is not None:
                if f.prop:
                    return self.call_func(FuncV(f, o), [], {})
                if f.static:
                    return FuncV(f)
                if f.classm:
                    return FuncV(f, ClsV(ob.cls))
                return FuncV(f, o)
            k = self.prog.class_const(ob.cls, name)
            if k is not None:
                return self.shared_const(k[0], k[0], k[1])
            if name == "__class__":
                return ClsV(ob.cls)
            return self.inst_ext(o, name)
        return MethV(o, name)

    def inst_ext(self, o, name):
        raise Unsup("attribute %s is not set" % name)

    def rec_attr(self, o, name):
        cell, args = self.rec_cell(o, name)
        if cell is not None and cell in self.cells:
            base, formals = self.symbase[cell[1]]
            v = self.cells[cell]
            m = {p: a for p, a in zip(formals, args) if p is not a}
            return self.simp(vsubst(v, m))
        ty = typeof(o)
        from .term import RECS
        if name not in RECS.get(ty[1], {}):
            raise Unsup("unknown attribute %s of %s" % (name, ty[1]))
        return F("attr", o, name)

    def rec_cell(self, o, name):
        """Attributes of symbolic records written by the code live in cells indexed by the record's position."""
        try:
            oid, args = self.sym_root(o)
        except Unsup:
            return None, None
        return ("sattr", oid, name), args

    def set_attr(self, o, name, v):
        if not isinstance(o, T):
            raise Unsup("attribute assignment")
        if o.op == "d":
            pc0 = self.pc
            for c, l in leaves(o):
                self.pc = pc0
                self.pc = land(pc0, self.simp(c))
                if self.pc is not K0 and l not in (BOT, MISSING):
                    self.set_attr(l, name, v)
            self.pc = pc0
            return
        if self.is_ref(o, "inst"):
            if isinstance(v, (IterV, GenV)):
                v = self.materialise(v)
            oid = o.a[1]
            if not isinstance(v, T) and ("attr", oid, name) not in self.cells:
                self.cells[("attr", oid, name)] = v
                return
            self.setattr_cell(o, name, v)
            return
        if self.is_ref(o):
            if self.is_ref(o, "ext") and isinstance(v, T):
                self.setattr_cell(o, name, v)
            return           # parameters of modelled solver objects
        if typeof(o)[0] == "rec":
            cell, args = self.rec_cell(o, name)
            if cell is None:
                raise Unsup("attribute assignment")
            base, formals = self.symbase[cell[1]]
            init = F("attr", base, name)
            self.events.append(("setrec", (), self.pc, (name, o, v)))
            if cell not in self.cells:
                self.cells[cell] = init
            c = self.pc
            for p, a in zip(formals, args):
                if p is not a:
                    c = land(c, eq(p, a))
            self.cells[cell] = ite(c, v, self.cells[cell])
            return
        if typeof(o)[0] == "any":
            return
        raise Unsup("attribute assignment")

    # ------------------------------------------------------------ items
    def get_item(self, o, i):
        if isinstance(o, (IterV, GenV, RangeV)):
            o = self.materialise(o)
        if not isinstance(o, T):
            raise Unsup("subscript of %s" % type(o).__name__)
        if o.op == "d":
            return self.by_case(o, lambda x: self.get_item(x, i))
        if isinstance(i, T) and i.op == "d" and not self.is_ref(o, "dict"):
            return self.by_case(i, lambda x: self.get_item(o, x))
        if self.is_ref(o, "list"):
            return self.simp(self.seq_get(self.seq(o), i))
        if self.is_ref(o, "dict"):
            return self.simp(self.dict_get(o, i))
        if self.is_ref(o):
            raise Unsup("subscript of an object")
        ty = typeof(o)
        if ty[0] == "arr2" and i.op == "f" and i.a[0] == "tuple":
            return self.simp(F("sel", F("sel", o, i.a[1]), i.a[2]))
        return self.simp(self.sym_get(o, i))

    def sym_get(self, o, i):
        return F("sel", o, i)

    def seq_get(self, seq, i):
        segs = list(seq.segs)
        i = self.simp(i)
        # from the end
        if isnum(i) and i.a[0] < 0:
            k = -i.a[0]
            while segs and k:
                bs, g, e = segs[-1]
                if bs == "tail":
                    if mkzero(e):
                        segs.pop()
                        continue
                    raise Unsup("last element of a list under construction")
                if bs or g is not K1:
                    if not bs or len(bs) != 1 or g is not K1 or k != 1:
                        raise Unsup("element from the end of a segment")
                    (b, d), = bs
                    return vsubst(e, {b: sub(d[1], K1)})
                k -= 1
                if k == 0:
                    return e
                segs.pop()
            raise Unsup("index beyond the list")
        off = i
        first = True
        segs = [(bs, self.simp(g) if bs == () else g, e) for bs, g, e in segs]
        segs = [x for x in segs if x[1] is not K0]
        for n, (bs, g, e) in enumerate(segs):
            if bs == "tail":
                past = self.simp(sub(off, mk("f", "phi", g, "len")))
                if isnum(past) and past.a[0] >= 0:
                    off = past
                    continue
                raise Unsup("element of a list under construction")
            if not bs and g is K1:
                if off is K0:
                    return e
                if isnum(off):
                    off = sub(off, K1)
                    continue
                # symbolic index: split when it is zero
                z = self.simp(eq(off, K0))
                if z is K1:
                    return e
                rest = Seq(segs[n + 1:])
                if z is K0:
                    off = sub(off, K1)
                    continue
                if not rest.segs:
                    return e
                return ite(z, e, self.under_get(lnot(z), rest, sub(off, K1)))
            if not bs and len(segs) <= 6 and all(x[0] == () for x in segs):
                # an element that may be missing
                rest = Seq(segs[n + 1:])
                if not rest.segs:
                    return e
                return ite(g, self.under_get(g, Seq([((), K1, e)] + segs[n + 1:]), off), self.under_get(lnot(g), rest, off))
            if len(bs) == 1 and bs[0][1][0] == "R" and g is not K1:
                g = inhabited(g, bs[0][1])
                sh = shift_guard(bs[0][0], bs[0][1][1], g)
                if sh is not None:
                    m = {bs[0][0]: sh[2]}
                    bs, g, e = ((sh[0], ("R", sh[1])),), subst(g, m), vsubst(e, m)
            r = self.seg_get(bs, g, e, off)
            if r is not None:
                return r
            ln = seqlen(Seq([(bs, g, NONE)]))
            nxt = self.simp(sub(off, self.simp(ln)))
            if self.simp(ge(nxt, K0)) is K1:
                off = nxt
                continue
            if n == len(segs) - 1:
                break
            if self.simp(lt(nxt, K0)) is K1 and len(bs) == 1 and g is K1:
                return vsubst(e, {bs[0][0]: off})
            if len(bs) == 1 and bs[0][1][0] == "R" and g is K1 and self.simp(ge(off, K0)) is K1:
                c = lt(nxt, K0)
                one = vsubst(e, {bs[0][0]: off})
                if isinstance(one, T):
                    if infeasible(land(self.pc, c)):
                        off = nxt
                        continue
                    if infeasible(land(self.pc, lnot(c))):
                        return one
                    return ite(c, self.under(c, lambda: self.simp(one)), self.under_get(lnot(c), Seq(segs[n + 1:]), nxt))
            raise Unsup("index into a list of several parts: %s in %s" % (show(off), seq))
        if len(segs) == 1 and len(segs[0][0]) == 1 and segs[0][0][0][1][0] == "R" and segs[0][1] is not K1:
            # the element with `off` elements before it
            (bs, g, e), = segs
            b, d = bs[0]
            at = First(b, d, land(g, eq(rank_of(b, d, g), off)))
            v = vsubst(e, {b: at})
            return restrict(v, subst(g, {b: at})) if isinstance(v, T) else v
        if segs and len(bs) == 1 and bs[0][1][0] == "R" and g is K1 and self.simp(ge(off, K0)) is K1:
            self.crash("index out of range", le(bs[0][1][1], off))
            return vsubst(e, {bs[0][0]: off})
        if len(segs) == 1 or n == len(segs) - 1:
            raise Unsup("index %s into %s" % (show(off), Seq(segs)))
        raise Unsup("index beyond the list")

    def under_get(self, c, seq, off):
        return self.under(c, lambda: self.seq_get(seq, off))

    def seg_get(self, bs, g, e, off):
        """Element of one segment at offset `off` when that is certainly inside it."""
        if len(bs) == 1:
            (b, d), = bs
            if d[0] == "R" and g is K1:
                inside = self.simp(land(ge(off, K0), lt(off, d[1])))
                if inside is K1 or True and self.surely_in(off, d[1]):
                    e = vsubst(e, {b: off})
                    return inhabited(e, d)
                return None
            if d[0] == "R":
                at = unrank(off, b, d, g)
                if at is not None and self.surely_in(at, d[1]) and self.simp(subst(g, {b: at})) is K1:
                    return vsubst(e, {b: at})
        return None

    def surely_in(self, off, n):
        if _in_range(off, n):
            return True
        c = self.simp(lt(off, n))
        return c is K1

    def set_item(self, o, i, v):
        if not isinstance(o, T):
            raise Unsup("item assignment")
        if not isinstance(v, T):
            v = self.materialise(v)
        if o.op == "d":
            pc0 = self.pc
            for c, l in leaves(o):
                self.pc = pc0
                self.pc = land(pc0, self.simp(c))
                if self.pc is not K0 and l not in (BOT, MISSING):
                    self.set_item(l, i, v)
            self.pc = pc0
            return
        if self.is_ref(o, "dict"):
            return self.dict_set(o, i, v)
        self.input_change(o, "element assignment")
        if self.is_ref(o, "list"):
            oid = o.a[1]
            cell = ("list", oid)
            inst = self.same(oid, o.a[2:])
            if i.op == "d":
                pc0 = self.pc
                for c, l in leaves(i):
                    self.pc = pc0
                    self.pc = land(pc0, self.simp(c))
                    if self.pc is not K0:
                        self.set_item(o, l, v)
                self.pc = pc0
                return
            seq = self.cells[cell]
            segs = list(seq.segs)
            if not isnum(i) and 0 < len(segs) <= 8 and all(s[0] == () and s[1] is K1 for s in segs):
                self.crash("index out of range", land(ge(i, K(len(segs)))))
                for n, (bs, g, e) in enumerate(segs):
                    segs[n] = (bs, g, ite(land(inst, self.pc, eq(i, K(n))), v, e))
                self.cells[cell] = Seq(segs)
                return
            off = i
            if isnum(i) and i.a[0] < 0 and all(s[0] == () and s[1] is K1 for s in segs):
                off = K(len(segs) + i.a[0])
            if isnum(i) and i.a[0] < 0 and len(segs) == 1:
                off = add(seqlen(seq), i)
            for n, (bs, g, e) in enumerate(segs):
                if bs == "tail":
                    break
                if not bs and g is K1:
                    if isnum(off):
                        if off is K0:
                            segs[n] = (bs, g, ite(land(inst, self.pc), v, e))
                            self.cells[cell] = Seq(segs)
                            return
                        off = sub(off, K1)
                        continue
                    raise Unsup("symbolic index into a literal list")
                if len(bs) == 1 and bs[0][1][0] == "R":
                    b, d = bs[0]
                    at = off if g is K1 else unrank(off, b, d, g)
                    if at is None:
                        raise Unsup("item assignment at %s" % show(off))
                    if g is not K1 or self.surely_in(at, d[1]) or len(segs) == 1 or segs[n + 1][0] == "tail":
                        c = land(inst, self.pc, eq(b, at))
                        segs[n] = (bs, g, ite(c, v, e))
                        self.cells[cell] = Seq(segs)
                        return
                    ln = seqlen(Seq([(bs, g, NONE)]))
                    nxt = sub(off, ln)
                    if self.simp(ge(nxt, K0)) is K1:
                        off = nxt
                        continue
                break
            raise Unsup("item assignment at %s" % show(i))
        if typeof(o)[0] in ("list", "arr", "arr2", "dict"):
            self.events.append(("mutate", (), self.pc, ("item", o)))
            raise Unsup("item assignment to an input")
        raise Unsup("item assignment")

    def slice(self, o, s):
        if s.step is not None:
            st = self.ev(s.step)
            raise Unsup("slice with a step")
        lo = self.ev(s.lower) if s.lower is not None else K0
        hi = self.ev(s.upper) if s.upper is not None else None
        if lo is K0 and hi is None:
            if self.is_ref(o, "list"):
                return self.newlist(self.seq(o).segs)
            if isinstance(o, T) and typeof(o)[0] == "list":
                return self.newlist(self.sym_list(o).segs)
        seq = self.seq(o) if self.is_ref(o, "list") else self.sym_list(o) if isinstance(o, T) and not self.is_ref(o) and \
            typeof(o)[0] in ("list", "arr") else None
        if seq is None or not isinstance(lo, T) or hi is not None and not isinstance(hi, T):
            raise Unsup("slice")
        n = self.simp(seqlen(seq))

        def bound(x):
            if nonneg(x):
                return x
            if nonneg(neg(x)):
                return add(n, x)
            raise Unsup("slice with a limit of either sign")
        lo, hi = bound(lo), None if hi is None or hi is NONE else bound(hi)
        out, off = [], K0
        for bs, g, e in seq.segs:
            if bs == "tail" or len(bs) > 1 or bs and bs[0][1][0] != "R":
                raise Unsup("slice of a computed list")
            at = add(off, rank_of(bs[0][0], bs[0][1], g)) if bs else off
            end = add(off, seqlen(Seq([(bs, g, e)])))
            if self.simp(ge(lo, end)) is K1 or hi is not None and self.simp(ge(off, hi)) is K1:
                off = end
                continue
            here = land(g, K1 if self.simp(ge(off, lo)) is K1 else ge(at, lo), K1 if hi is None or self.simp(ge(hi, end)) is K1 else lt(at, hi))
            here = self.simp(here)
            if here is not K0:
                out.append((bs, here, e))
            off = add(off, seqlen(Seq([(bs, g, e)])))
        return self.newlist(out)

    # ------------------------------------------------------------ lists
    def reverse_segs(self, segs):
        out = []
        for bs, g, e in reversed(list(segs)):
            if bs == "tail":
                raise Unsup("reversal of a list under construction")
            m, nb = {}, []
            for b, d in bs:
                if d[0] != "R":
                    raise Unsup("reversal")
                n = subst(d[1], m) if m else d[1]
                c = fresh(("R", n))
                m[b] = sub(sub(n, K1), c)
                nb.append((c, ("R", n)))
            out.append((tuple(nb), subst(g, m), vsubst(e, m)) if m else (bs, g, e))
        return out

    def list_segs(self, v):
        if isinstance(v, T) and v.op == "d":
            raise Unsup("conditional list")
        return self.force(self.iter_segs(v))

    def list_extend(self, ref, v):
        segs = self.list_segs(v)
        self.append(ref, segs)

    def list_concat(self, a, b):
        if isinstance(a, T) and a.op == "f" and a.a[0] == "tuple" and isinstance(b, T) and b.op == "f" and b.a[0] == "tuple":
            return F("tuple", *(a.a[1:] + b.a[1:]))
        return self.newlist(self.list_segs(a) + self.list_segs(b))

    def list_repeat(self, l, n):
        segs = self.seq(l).segs
        if isnum(n):
            if n.a[0] > 64:
                raise Unsup("long literal")
            return self.newlist(list(segs) * max(n.a[0], 0))
        if len(segs) != 1 or segs[0][0]:
            raise Unsup("repetition of a longer list")
        return self.newlist([self.const_seg(n, segs[0][2])])

    def const_seg(self, n, v):
        if isinstance(v, T) and self.is_ref(v):
            raise Unsup("list of shared objects")
        u = self.unranked(n)
        if u is not None:
            i, dom, g = u
            return (((i, dom),), g, v)
        i = fresh(("R", n))
        return (((i, ("R", n)),), K1, v)

    # ------------------------------------------------------------ membership and sets
    def contains(self, c, x):
        if isinstance(c, (IterV, GenV, RangeV)):
            if isinstance(c, RangeV) and isinstance(x, T):
                return land(ge(x, c.a), lt(x, c.b))
            if isinstance(c, IterV) and c.kind == "keys":
                return self.dict_has(c.args[0], x)
            c = self.materialise(c)
        if not isinstance(c, T) or not isinstance(x, T):
            raise Unsup("membership")
        if c.op == "d":
            return self.by_case(c, lambda y: self.contains(y, x))
        if self.is_ref(c, "list"):
            r = K0
            for bs, g, e in self.seq(c).segs:
                if bs == "tail":
                    raise Unsup("membership in a list under construction")
                h = land(g, self.equal_elem(e, x))
                for b, d in reversed(bs):
                    h = self.exists_elem(b, d, h, x)
                r = lor(r, h)
            return self.simp(r)
        if self.is_ref(c, "set"):
            return self.simp(self.set_memb(x, c))
        if self.is_ref(c, "dict"):
            return self.simp(self.dict_has(c, x))
        if c.op == "f" and c.a[0] == "tuple":
            return lor(*[eq(y, x) for y in c.a[1:]])
        if typeof(c)[0] in ("list", "set"):
            return self.simp(self.set_memb(x, c))
        if typeof(c)[0] == "dict":
            return self.simp(F("in", x, c))
        raise Unsup("membership in %s" % show(c))

    def equal_elem(self, e, x):
        te = typeof(e)[0]
        if self.listlike(e) or self.listlike(x):
            if e is x:
                return K1
            for u, v in ((e, x), (x, e)):
                if self.is_ref(u, "list") and self.seq(u).segs == ():
                    return le(self.b_len(v), K0)
            a, b = sorted((self.abstract_list(e), self.abstract_list(x)), key=lambda t: t.id)
            return K1 if a is b else atom(mk("f", "eq", a, b))
        return eq(e, x)

    def abstract_list(self, v):
        if self.is_ref(v, "list"):
            segs = self.seq(v).segs
            if all(not bs and g is K1 for bs, g, e in segs):
                return F("tuple", *[e for _, _, e in segs])
            raise Unsup("comparison of lists")
        return v

    def exists_elem(self, b, d, h, x):
        # x in a symbolic list of identifiers: one membership atom
        if h.op == "d":
            for t in subterms(h):
                if t.op == "f" and t.a[0] == "sel" and t.a[2] is b and d[0] == "R" and d[1] is F("len", t.a[1]):
                    if "distinct" in flags(typeof(t.a[1])) or True:
                        l = t.a[1]
                        if h is eq(t, x) and b not in x.fv:
                            return self.set_memb(x, l)
        return Exists(b, d, h)

    def set_memb(self, x, s):
        if s.op == "d":
            return self.by_case(s, lambda y: self.set_memb(x, y))
        if x.op == "d" and any(self.model_id(l) for _, l in leaves(x)):
            return self.by_case(x, lambda y: self.set_memb(y, s))
        if self.model_id(x):
            try:
                oid, args = self.set_root(s)
            except Unsup:
                oid = None
            if oid is not None:
                kk, ka = self.keykind(x)
                v = self.rd(("mapin", oid, kk), oid, args, self.keyformals(oid, kk), ka)
                return K0 if v is UNDEF else v
        if self.is_ref(s, "set"):
            oid = s.a[1]
            return self.rd(("set", oid), oid, s.a[2:], (self.setelt(oid),), (x,))
        oid = None
        if typeof(s)[0] == "set":
            try:
                oid, args = self.sym_root(s)
            except Unsup:
                oid = None
            if oid is not None and ("set", oid) in self.cells:
                base, formals = self.symbase[oid]
                v = self.cells[("set", oid)]
                m = {p: a for p, a in zip(formals, args) if p is not a}
                m[self.setelt(oid)] = x
                return subst(v, m)
        return member(x, s)

    def model_id(self, x):
        """An index of a variable or constraint of a model."""
        return isinstance(x, T) and x.op == "f" and x.a[0] in ("vidx", "cidx") and self.is_ref(x.a[1])

    def set_root(self, s):
        if self.is_ref(s, "set"):
            return s.a[1], s.a[2:]
        return self.sym_root(s)

    def ids_in(self, s):
        """Kinds of model indices a set can contain."""
        try:
            oid, _ = self.set_root(s)
        except Unsup:
            return []
        return [c for c in self.cells if c[0] == "mapin" and c[1] == oid]

    def set_of(self, fn, universe=None):
        r = self.alloc("set", tag=universe)
        oid = r.a[1]
        self.cells[("set", oid)] = fn(self.setelt(oid))
        return r

    def set_univ(self, s):
        if self.is_ref(s, "set"):
            return self.obj(s).tag
        if s.op == "d":
            us = {self.set_univ(l) for _, l in leaves(s)}
            return us.pop() if len(us) == 1 else None
        return self.universe_of(s)

    def set_op(self, op, a, b):
        ua, ub = self.set_univ(a), self.set_univ(b)
        if isinstance(op, ast.BitAnd):
            return self.set_of(lambda x: land(self.set_memb(x, a), self.set_memb(x, b)), ua if ua is not None else ub)
        if isinstance(op, ast.BitOr):
            return self.set_of(lambda x: lor(self.set_memb(x, a), self.set_memb(x, b)), ua if ua is ub else None)
        if isinstance(op, ast.Sub):
            return self.set_of(lambda x: land(self.set_memb(x, a), lnot(self.set_memb(x, b))), ua)
        raise Unsup("set operator")

    def set_change(self, s):
        """In-place change of a set that was passed in from outside, or that may be one."""
        for c, l in leaves(s):
            if self.is_ref(l):
                if getattr(self.obj(l), "origin", None) is not None:
                    self.set_origin(self.obj(l).origin, c)
            else:
                self.set_origin(l, c)
        raise Unsup("in-place change of an input set")

    def set_origin(self, v, c):
        for g, l in leaves(v):
            l = self.phi_start.get(l, l)
            for h, o in leaves(l) if isinstance(l, T) else ():
                if not self.is_ref(o):
                    self.events.append(("mutset", (), land(self.pc, c, g, h), ("in place", o)))

    def set_inplace(self, s, t, op):
        if not self.is_ref(s):
            self.set_change(s)
        if getattr(self.obj(s), "box", False):
            if self.obj(s).origin is not None:
                self.set_origin(self.obj(s).origin, K1)
            raise Unsup("in-place update of a set that a loop replaces")
        r = self.set_op(op, s, t)
        oid, o2 = s.a[1], r.a[1]
        if self.same(oid, s.a[2:]) is not K1:
            raise Unsup("in-place set update")
        v = subst(self.cells[("set", o2)], {self.setelt(o2): self.setelt(oid)})
        self.cells[("set", oid)] = ite(self.pc, v, self.cells[("set", oid)])

    def set_equal(self, a, b):
        if a is b:
            return K1
        x = fresh(None, "e")
        p, q = self.set_memb(x, a), self.set_memb(x, b)
        u = self.set_univ(a) or self.set_univ(b)
        if p is q:
            return K1
        if u is None and self.folds:
            u = mk("s", "inf")
        if u is None:
            raise Unsup("set comparison")
        y = fresh(("R", u))
        d = subst(ite(p, lnot(q), q), {x: y})
        return lnot(Exists(y, ("R", u), d))

    def set_add(self, s, v, universe=None):
        if self.is_ref(s, "set"):
            oid = s.a[1]
            if getattr(self.obj(s), "box", False):
                raise Unsup("in-place update of a set that a loop replaces")
            e = self.setelt(oid)
            if self.add_id(oid, s.a[2:], v):
                return
            c = land(self.same(oid, s.a[2:]), self.pc, eq(e, v))
            self.cells[("set", oid)] = lor(self.cells[("set", oid)], c)
            return
        oid, args = self.sym_root(s)
        base, formals = self.symbase[oid]
        cell = ("set", oid)
        e = self.setelt(oid)
        if self.add_id(oid, args, v):
            self.events.append(("mutset", (), self.pc, ("add", s, v)))
            return
        if cell not in self.cells:
            self.cells[cell] = member(e, base)
        c = land(self.pc, eq(e, v))
        for p, a in zip(formals, args):
            c = land(c, eq(p, a))
        self.cells[cell] = lor(self.cells[cell], c)
        self.events.append(("mutset", (), self.pc, ("add", s, v)))

    def add_id(self, oid, args, v):
        if v.op == "d" and any(self.model_id(l) for _, l in leaves(v)):
            raise Unsup("conditional set element")
        if not self.model_id(v):
            return False
        kk, ka = self.keykind(v)
        c = self.pc
        for p, a in zip(self.params_of(oid), args):
            if p is not a:
                c = land(c, eq(p, a))
        for p, a in zip(self.keyformals(oid, kk), ka):
            c = land(c, eq(p, a))
        cell = ("mapin", oid, kk)
        self.cells[cell] = lor(self.cells.get(cell, K0), c)
        return True

    # ------------------------------------------------------------ dicts
    def keykind(self, k):
        """Kind of a key and its scalar arguments."""
        if k.op == "f" and k.a[0] in ("vidx", "cidx"):
            r = k.a[1]
            if r.op == "f" and r.a[0] == "ref":
                return (k.a[0], r.a[1], len(r.a) - 2), tuple(r.a[2:])
            return (k.a[0] + "?", 1), (k,)
        if k.op == "f" and k.a[0] == "ref":
            return ("ref", k.a[1], len(k.a) - 2), tuple(k.a[2:])
        if k.op == "f" and k.a[0] == "tuple":
            return ("tuple", len(k.a) - 1), tuple(k.a[1:])
        if isk(k) and isinstance(k.a[0], str):
            return ("str", k.a[0], 0), ()
        if isk(k) and k.a[0] is None:
            return ("none", 0), ()
        return ("val", 1), (k,)

    def dict_set(self, d, k, v):
        if k.op == "d":
            pc0 = self.pc
            for c, l in leaves(k):
                self.pc = pc0
                self.pc = land(pc0, self.simp(c))
                if self.pc is not K0:
                    self.dict_set(d, l, v)
            self.pc = pc0
            return
        oid = d.a[1]
        kk, ka = self.keykind(k)
        kf = self.keyformals(oid, kk)
        us = tuple(universe(a) for a in ka)
        cell = ("map", oid, kk)
        if self.keyuniv.setdefault(cell, us) != us:
            self.keyuniv[cell] = None
        for cell, val, init in ((("map", oid, kk), v, MISSING), (("mapin", oid, kk), K1, K0)):
            c = land(self.same(oid, d.a[2:]), self.pc)
            for p, a in zip(kf, ka):
                c = land(c, eq(p, a))
            old = self.cells.get(cell, init)
            self.cells[cell] = ite(c, val, old)

    def dict_get(self, d, k):
        if k.op == "d":
            return self.by_case(k, lambda x: self.dict_get(d, x))
        oid = d.a[1]
        kk, ka = self.keykind(k)
        if kk[0].endswith("?"):
            raise Unsup("dictionary key")
        kf = self.keyformals(oid, kk)
        v = self.rd(("map", oid, kk), oid, d.a[2:], kf, ka)
        if v is UNDEF:
            raise Unsup("missing dictionary key %s" % show(k))
        v = self.simp(v)
        if v.op == "d" and any(l is MISSING for _, l in leaves(v)):
            ok = lnot(where(v, MISSING))
            v = restrict(v, ok)      # a missing key is an error of the run, not a value
        return v

    def dict_has(self, d, k):
        if k.op == "d":
            return self.by_case(k, lambda x: self.dict_has(d, x))
        if not self.is_ref(d, "dict"):
            return F("in", k, d)
        oid = d.a[1]
        kk, ka = self.keykind(k)
        kf = self.keyformals(oid, kk)
        v = self.rd(("mapin", oid, kk), oid, d.a[2:], kf, ka)
        return K0 if v is UNDEF else v

    def dict_segs(self, d, what):
        """Entries as segments (order of insertion is not represented; used only for unordered purposes)."""
        if not self.is_ref(d, "dict"):
            if isinstance(d, T) and typeof(d)[0] == "dict":
                raise Unsup("iteration over an input dictionary")
            raise Unsup("dictionary view")
        oid = d.a[1]
        out = []
        for cell in self.cells:
            if cell[0] == "mapin" and cell[1] == oid:
                kk = cell[2]
                kf = self.keyformals(oid, kk)
                inn = self.rd(cell, oid, d.a[2:])
                val = self.rd(("map", oid, kk), oid, d.a[2:])
                if kk[0] in ("vidx", "ref", "cidx"):
                    bs, mm, key = self.id_binders(kk, kf)
                    g = subst(inn, mm)
                elif kk[0] == "str":
                    bs, mm, key, g = [], {}, mk("k", kk[1]), inn
                elif kk[0] == "val" and len(kf) == 1:
                    u = self.key_universe(inn, kf[0])
                    if u is None:
                        raise Unsup("dictionary view")
                    b = fresh(("R", u))
                    bs, mm, key = [(b, ("R", u))], {kf[0]: b}, b
                    g = subst(inn, mm)
                else:
                    raise Unsup("dictionary view")
                v = restrict(subst(val, mm), g)
                e = {"keys": key, "values": v, "items": None}[what]
                out.append((tuple(bs), g, e if what != "items" else self.mktuple([key, v])))
        return out

    def exists_guard(self, oid, args):
        return K1

    def key_universe(self, inn, f):
        return self.guess_universe(inn, f)

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "print":
            return NONE
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.do_super(e)
        recv = None
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value)
            if isinstance(recv, T) and recv.op == "d":
                recv = self.simp(recv)
            f = None if isinstance(recv, T) and recv.op == "d" else self.get_attr(recv, e.func.attr)
        else:
            f = self.ev(e.func)
        if isinstance(f, ExtV) and self.ignored_ext(f.name):
            return NONE
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if isinstance(v, T) and v.op == "f" and v.a[0] == "tuple":
                    args.extend(v.a[1:])
                else:
                    raise Unsup("star argument")
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                raise Unsup("double star argument")
            kwargs[k.arg] = self.ev(k.value)
        self.node = e
        if f is None:
            return self.call_by_case(recv, e.func.attr, args, kwargs)
        return self.call(f, args, kwargs)

    def call_by_case(self, o, name, args, kwargs):
        """Method of a receiver that depends on conditions."""
        r, out = None, K0
        pc0 = self.pc
        for c, l in leaves(o):
            c = self.simp(c)
            self.pc = land(pc0, c)
            if self.pc is K0 or l in (BOT, MISSING):
                self.pc = pc0
                continue
            v = self.call(self.get_attr(l, name), list(args), dict(kwargs))
            out = lor(out, self.pc)
            self.pc = pc0
            if r is None:
                r = v
            elif r is not v:
                if not isinstance(v, T) or not isinstance(r, T):
                    raise Unsup("conditional non-term")
                r = ite(c, v, r)
        if r is None:
            raise Unsup("no possible value")
        self.pc = out
        return r

    def shared_const(self, key, expr, mod):
        """Class and module level values are created once."""
        memo = self.__dict__.setdefault("consts_", {})
        if key in memo:
            return memo[key]
        sm, self.mod = self.mod, mod
        pc0, lo0, n0 = self.pc, self.loops, self.noid
        try:
            if isinstance(expr, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp, ast.SetComp)):
                if self.loops:
                    raise Unsup("shared value first used in a loop")
                self.pc, self.loops = K1, []
            v = self.ev(expr)
        finally:
            self.mod, self.pc, self.loops = sm, pc0, lo0
        if self.is_ref(v):
            memo[key] = v
        return v

    def ignored_ext(self, name):
        return name in ("builtins.print",)

    def do_super(self, e):
        fr = self.frames[-1]
        while fr is not None and fr.cls is None:
            fr = fr.parent
        me = fr
        s = None
        f2 = self.frames[-1]
        while f2 is not None and s is None:
            fn = f2.fn
            if fn is not None and fn.cls is not None and fn.node.args.args:
                s = self.cells.get(("var", f2.fid, fn.node.args.args[0].arg))
            f2 = f2.parent
        if s is None or me is None:
            raise Unsup("super")
        after = me.cls
        if e.args:
            c = self.ev(e.args[0])
            if isinstance(c, ClsV):
                after = c.c
        return SuperV(s, after)

    def call(self, f, args, kwargs):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClsV):
            return self.instantiate(f.c, args, kwargs)
        if isinstance(f, MethV):
            return self.call_method(f.obj, f.name, args, kwargs)
        if isinstance(f, ExtV):
            return self.call_ext(f.name, args, kwargs)
        raise Unsup("call of %s" % (show(f) if isinstance(f, T) else type(f).__name__))

    def instantiate(self, c, args, kwargs):
        r = self.alloc("inst", cls=c)
        init = self.prog.method(c, "__init__")
        if init is not None:
            self.call_func(FuncV(init, r), args, kwargs)
        elif args or kwargs:
            pass
        return r

    # overridden by the library models
    def ext_const(self, name):
        return None

    def call_ext(self, name, args, kwargs):
        raise Unsup("call of %s" % name)

    def call_method(self, o, name, args, kwargs):
        raise Unsup("method %s" % name)


# ---------------------------------------------------------------- helpers
def _lecut(x, c):
    from .term import _le_cut
    return _le_cut(x, c)


def mkzero(e):
    return False


def nonneg(t):
    from .term import rng
    lo, _ = rng(t)
    return lo is not None and lo >= 0


def rank_of(b, dom, g):
    if g is K1:
        return b
    if b not in g.fv:
        return b
    b2 = fresh(("R", b))
    return Sum(b2, ("R", b), subst(g, {b: b2}))


def unrank(off, b, dom, g):
    """Element whose rank (number of earlier elements satisfying g) is `off`."""
    from .term import opened
    g = witnessed(g, ((b, dom),), g)
    if off.op == "sum":
        # the rank of the element at t is a sum over 0..t
        hs, doms, mono, lits = off.a
        if len(hs) == 1 and not mono and doms[0][0] == "R":
            t = doms[0][1]
            if rank_of_at(g, b, t) is off:
                return t
    return None


def rank_of_at(g, b, t):
    b2 = fresh(("R", t))
    return Sum(b2, ("R", t), subst(g, {b: b2}))


def walk_own(node):
    st = list(node.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def repr_pat(t, args):
    if t.op == "s":
        return t.a[0]
    if t.op == "f" and t.a[0] == "attr":
        return repr_pat(t.a[1], args) + "." + t.a[2]
    if t.op == "f" and t.a[0] == "sel":
        p = repr_pat(t.a[1], args)
        args.append(t.a[2])
        return p + "[]"
    raise Unsup("mutation of %s" % show(t))


def rebuild_pat(t, formals):
    st = list(formals)

    def go(t):
        if t.op == "s":
            return t
        if t.a[0] == "attr":
            return F("attr", go(t.a[1]), t.a[2])
        base = go(t.a[1])
        return F("sel", base, st.pop(0))
    return go(t)


def counter_step(body, name):
    """+1/-1 if the last statement of body steps `name` and nothing else assigns it."""
    last = body[-1]
    step = None
    if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == name and \
            isinstance(last.value, ast.Constant) and last.value.value == 1:
        step = 1 if isinstance(last.op, ast.Add) else -1 if isinstance(last.op, ast.Sub) else None
    elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and \
            last.targets[0].id == name and ast.unparse(last.value).replace(" ", "") in (name + "+1", "1+" + name, name + "-1"):
        step = -1 if "-" in ast.unparse(last.value) else 1
    if step is None:
        return None
    for s in body[:-1]:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                return None
            if isinstance(n, ast.Continue):
                return None
    return step


def split_limit(test, name, step):
    """[((op, bound expr), rest of the condition or None)]"""
    parts = list(test.values) if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]
    for k, p in enumerate(parts):
        if not (isinstance(p, ast.Compare) and len(p.ops) == 1):
            continue
        l, op, r = p.left, p.ops[0], p.comparators[0]
        if isinstance(r, ast.Name) and r.id == name and not (isinstance(l, ast.Name) and l.id == name):
            l, r = r, l
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
        if not (isinstance(l, ast.Name) and l.id == name):
            continue
        if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(r)):
            continue
        if k != 0:
            continue
        o = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}.get(type(op))
        if o is None or (step == 1) != (o in ("<", "<=")):
            continue
        rest = parts[:k] + parts[k + 1:]
        rt = None if not rest else rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)
        yield (o, r), rt
