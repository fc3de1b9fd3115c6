"""Compares what the package computes (summaries, optimisation models) with what a reference description computes."""
import itertools
import random
from fractions import Fraction

from . import sepa, ground, source
from .exec import Seq, Frame, MISSING, DEAD, IterV, GenV, RangeV, PyVal
from .lib import INF
from .libcp import CpLib
from .term import (LENS, shift_guard, inhabited, T, K, K0, K1, NONE, BOT, S, F, Unsup, fresh, BD, Sum, Exists, Forall, add, sub, mul, neg, le, ge,
                   ite, land, lor, lnot, restrict, leaves, subst, typeof, isnum, mk, apply, VARRNG, show, rewrite, absorb,
                   subterms, witnessed)

_cb = {}


def canon(k, dom):
    key = (k,) + tuple(dom)
    b = _cb.get(key)
    if b is None:
        b = _cb[key] = fresh(tuple(dom), "c")
    return b


def rename(bs, *vals):
    """Canonical binders for a family; returns ([(b, dom)], values)."""
    m, out = {}, []
    for k, (b, d) in enumerate(bs):
        d2 = tuple(subst(x, m) if isinstance(x, T) else x for x in d)
        c = canon(k, d2)
        m[b] = c
        out.append((c, d2))
    return tuple(out), [subst(v, m) if isinstance(v, T) else v for v in vals]


def dom_of(p):
    return BD[p]


class Fam:
    def __init__(self, oid, bs, guard, nest):
        self.oid, self.bs, self.guard, self.nest = oid, bs, guard, nest
        self.label = None
        self.off = [K0] * len(bs)

    @property
    def args(self):
        """Numbers of the elements, as the package counts them."""
        return [add(b, o) if o is not K0 else b for (b, _), o in zip(self.bs, self.off)]

    def trim(self):
        """Conditions that cut off an end of a range become part of the range."""
        for k, (b, d) in enumerate(self.bs):
            if d[0] != "R":
                continue
            self.guard = inhabited(self.guard, d)
            while True:
                (b, d) = self.bs[k]
                sh = shift_guard(b, d[1], self.guard)
                if sh is None:
                    break
                lo = sub(sh[2], sh[0])
                if lo.fv or sh[1].fv & {b for b, _ in self.bs[k:]}:
                    break
                bs = list(self.bs)
                m = {b: sh[2]}
                bs[k] = (sh[0], ("R", sh[1]))
                for j in range(k + 1, len(bs)):
                    bs[j] = (bs[j][0], tuple(subst(x, m) if isinstance(x, T) else x for x in bs[j][1]))
                self.off[k] = add(self.off[k], lo)
                self.bs, (self.guard,) = rename(bs, subst(self.guard, m))

    def key(self):
        return (tuple(d for _, d in self.bs), self.guard)


class Model:
    """A linear (or CP) model as recorded by the summariser at a solve."""

    def __init__(self, I, snap):
        self.I, self.snap = I, snap
        self.src = snap["src"]
        self.cp = snap.get("kind") == "cp"
        self.cells = snap["cells"]
        self.pc = snap["pc"]
        self.vars, self.cons = [], []
        seen = set()
        for kind, bs, g, d in snap["events"]:
            if kind not in ("newvar", "newcons") or d[0] is not self.src:
                continue
            ref = d[1]
            if ref.op != "f" or ref.a[0] != "ref":
                raise Unsup("conditional model element")
            if ref.a[1] in I.keyed:
                if ref.a[1] in seen:
                    continue
                seen.add(ref.a[1])
                inn = I.keyed[ref.a[1]]
                if not I.keyed_ok(("map",) + inn[1:], ref.a[1], self.cells):
                    raise Unsup("variables created under dictionary keys")
                ps = I.objs[ref.a[1]].params
                bs = [(p, dom_of(p)) for p in ps]
                ref = mk("f", "ref", ref.a[1], *ps)
                g = subst(self.cells[inn], dict(zip(I.formals(inn), ps)))
            elif tuple(ref.a[2:]) != tuple(b for b, _ in bs):
                raise Unsup("model elements of an interrupted loop")
            cb, (g2,) = rename(bs, absorb(restrict(g, self.pc)))
            f = Fam(ref.a[1], cb, g2, ref)
            f.trim()
            f.guard = witnessed(f.guard, f.bs, f.guard)
            if kind == "newvar":
                f.lb, f.ub, f.int = (self.at(("attr", f.oid, n), f) for n in ("lb", "ub", "int"))
                self.vars.append(f)
            else:
                f.lb, f.ub = (self.at(("attr", f.oid, n), f) for n in ("lb", "ub"))
                f.expr = self.at(("attr", f.oid, "expr"), f)
                f.extra = self.at(("attr", f.oid, "cond"), f) if ("attr", f.oid, "cond") in self.cells else K1
                self.cons.append(f)
        self.sense = self.simp(self.cells[("attr", self.src.a[1], "sense")])
        self.offset = self.simp(self.cells[("attr", self.src.a[1], "offset")])

    def simp(self, v):
        if v is DEAD or any(x is DEAD for x in subterms(v)):
            raise Unsup("model depends on a value that is not understood")
        return absorb(restrict(v, self.pc))

    def at(self, cell, fam):
        v = self.cells.get(cell)
        if v is None:
            return K0
        m = dict(zip(self.I.objs[fam.oid].params, fam.args))
        return witnessed(restrict(self.simp(subst(v, m) if m else v), fam.guard), fam.bs, fam.guard)

    def relabel(self, t):
        lab = {f.oid: f for f in self.vars + self.cons if f.label}

        def hook(x):
            if x.op == "f" and x.a[0] == "ref" and x.a[1] in lab:
                args = [rewrite(y, hook) if isinstance(y, T) else y for y in x.a[2:]]
                f = lab[x.a[1]]
                args = [sub(y, o) if o is not K0 else y for y, o in zip(args, f.off)]
                return mk("f", "ref", f.label, *args)
            return None
        return rewrite(t, hook) if lab else t

    def rl(self, t):
        for m in self.sibs:
            t = m.relabel(t)
        return t

    def build(self):
        for f in self.vars:
            lo = f.lb.a[0] if isnum(f.lb) else None
            hi = f.ub.a[0] if isnum(f.ub) else None
            VARRNG[f.label] = (lo, hi)
        o = self.rl(self.offset)
        so = self.src.a[1]
        if ("attr", so, "objexpr") in self.cells:
            o = add(o, self.rl(self.simp(self.cells[("attr", so, "objexpr")])))
        for f in self.vars:
            c = self.cells.get(("ocoef", so, f.oid))
            if c is None:
                continue
            kf = self.I.coefformals("obj", f.oid)
            o = add(o, self.lin(c, dict(zip(kf, f.args)), f))
        self.obj = o
        for c in self.cons:
            row = self.rl(c.expr)
            for f in self.vars:
                w = self.cells.get(("coef", c.oid, f.oid))
                if w is None:
                    continue
                # binders of variable and constraint must not clash
                m = dict(zip(self.I.objs[c.oid].params, c.args))
                vb, mm = [], {}
                for b, d in f.bs:
                    d2 = tuple(subst(x, mm) if isinstance(x, T) else x for x in d)
                    b2 = fresh(d2)
                    mm[b] = b2
                    vb.append((b2, d2))
                m.update(zip(self.I.coefformals(c.oid, f.oid),
                             [add(b, o) if o is not K0 else b for (b, _), o in zip(vb, f.off)]))
                g = subst(f.guard, mm) if mm else f.guard
                row = add(row, self.lin(w, m, f, vb, g, c.guard))
            c.row = row
            c.model_extra = self.rl(c.extra)
            cond = land(bound(c.lb, row, True), bound(c.ub, row, False), c.model_extra)
            c.cond = witnessed(restrict(cond, c.guard), c.bs, c.guard)

    def lin(self, coef, m, f, vb=None, g=None, cg=K1):
        vb = f.bs if vb is None else vb
        g = f.guard if g is None else g
        w = self.simp(subst(coef, m) if m else coef)
        w = absorb(restrict(restrict(w, cg), g))
        for _, d in vb:
            w = inhabited(w, d)
        body = mul(ite(g, self.rl(w), K0), mk("f", "ref", f.label, *[b for b, _ in vb]))
        for b, d in reversed(vb):
            body = Sum(b, d, body)
        return body

    def forall(self, c):
        r = lor(lnot(c.guard), c.cond)
        for b, d in reversed(c.bs):
            r = Forall(b, d, r)
        return r


def bound(b, row, low):
    def one(x):
        if x is INF or x is neg(INF):
            return K1
        return le(x, row) if low else le(row, x)
    return apply(one, b)


# ---------------------------------------------------------------- values
def norm(I, v, depth=0):
    """Observed value in a comparable form."""
    if isinstance(v, (IterV, GenV, RangeV)):
        v = I.materialise(v)
    if not isinstance(v, T):
        if isinstance(v, PyVal):
            return ("py", getattr(v, "name", None) or getattr(getattr(v, "c", None), "name", None) or
                    getattr(getattr(v, "f", None), "name", None) or type(v).__name__)
        raise Unsup("observation of %s" % type(v).__name__)
    if depth > 6:
        raise Unsup("deeply nested value")
    v = I.simp(v)
    if v.op == "d" and any(I.is_ref(l) and I.obj(l).kind in ("list", "set", "inst", "dict") or
                           (l.op == "f" and l.a[0] == "tuple") for _, l in leaves(v)):
        out = []
        for c, l in leaves(v):
            if l in (BOT, MISSING):
                continue
            pc0 = I.pc
            c = I.simp(c)
            I.pc = land(pc0, c)
            if I.pc is not K0:
                out.append((c, norm(I, l, depth + 1)))
            I.pc = pc0
        return ("case", tuple(out))
    if v.op == "f" and v.a[0] == "tuple":
        return ("tuple", tuple(norm(I, x, depth + 1) for x in v.a[1:]))
    if I.is_ref(v, "list"):
        segs = []
        for bs, g, e in I.seq(v).segs:
            if bs == "tail":
                raise Unsup("unfinished list")
            pc0 = I.pc
            n = norm(I, e, depth + 1) if isinstance(e, T) else e
            I.pc = pc0
            g = I.simp(g)
            if g is K0:
                continue
            segs.append((bs, g, n))
        return ("seq", tuple(segs))
    if I.is_ref(v, "set"):
        e = fresh(("any",))
        return ("set", e, I.simp(I.set_memb(e, v)), I.set_univ(v))
    if I.is_ref(v, "dict"):
        return norm_dict(I, v, depth)
    if I.is_ref(v, "inst"):
        rec = getattr(I, "records", {}).get(I.obj(v).cls.name)
        if rec is not None:
            return ("tuple", tuple(("zip", tuple(norm(I, I.get_attr(v, b), depth + 1) for b in a)) if isinstance(a, tuple)
                                   else norm(I, I.get_attr(v, a), depth + 1) for a in rec))
    if v is DEAD or any(x is DEAD for x in subterms(v)):
        raise Unsup("value is not understood")
    return v


def norm_dict(I, d, depth):
    """Per kind of key: binders, domains (if known), when present, value."""
    oid = d.a[1]
    out = []
    for cell in sorted((c for c in I.cells if c[0] == "mapin" and c[1] == oid), key=repr):
        kk = cell[2]
        if kk[0] not in ("val", "tuple", "str"):
            raise Unsup("observed dictionary key")
        kf = I.keyformals(oid, kk)
        bs = [fresh(("any",)) for _ in kf]
        m = dict(zip(kf, bs))
        inn = I.rd(cell, oid, d.a[2:])
        us = I.keyuniv.get(("map",) + cell[1:])
        doms = []
        for k, f in enumerate(kf):
            u = us[k] if us and us[k] is not None else I.guess_universe(inn, f)
            doms.append(u)
        inn = I.simp(subst(inn, m))
        val = subst(I.rd(("map",) + cell[1:], oid, d.a[2:]), m)
        pc0 = I.pc
        I.pc = land(pc0, inn)
        if I.pc is not K0:
            n = norm(I, restrict(val, inn), depth + 1)
            out.append((kk, tuple(bs), tuple(doms), inn, n))
        I.pc = pc0
    return ("dict", tuple(out))


def bagof(n):
    """The order of the list does not matter."""
    if isinstance(n, T):
        return n
    if n[0] == "seq":
        return ("bag", n)
    if n[0] == "case":
        return ("case", tuple((c, bagof(x)) for c, x in n[1]))
    return n


def vmap(n, fn):
    if isinstance(n, T):
        return fn(n)
    if n[0] == "bag":
        return ("bag", vmap(n[1], fn))
    if n[0] == "case":
        return ("case", tuple((fn(c), vmap(x, fn)) for c, x in n[1]))
    if n[0] in ("tuple", "zip"):
        return (n[0], tuple(vmap(x, fn) for x in n[1]))
    if n[0] == "seq":
        return ("seq", tuple((tuple((b, tuple(fn(y) if isinstance(y, T) else y for y in d)) for b, d in bs), fn(g),
                              vmap(e, fn)) for bs, g, e in n[1]))
    if n[0] == "set":
        return ("set", fn(n[1]), fn(n[2]), n[3])
    if n[0] == "dict":
        return ("dict", tuple((kk, tuple(fn(b) for b in bs), us, fn(g), vmap(e, fn)) for kk, bs, us, g, e in n[1]))
    return n


def vcanon(n, depth=0):
    """Alpha-renaming of binders; conditions are moved into the parts of structured values."""
    if isinstance(n, T):
        return n
    if n[0] == "seq":
        out = []
        for bs, g, e in n[1]:
            m, nb = {}, []
            for k, (b, d) in enumerate(bs):
                d2 = tuple(subst(x, m) if isinstance(x, T) else x for x in d)
                c = canon(depth + k, d2)
                m[b] = c
                nb.append((c, d2))
            f = (lambda t: subst(t, m)) if m else (lambda t: t)
            g2 = f(g)
            g2 = witnessed(g2, nb, g2)
            e2 = vcanon(vmap(e, lambda t: witnessed(restrict(f(t), g2), nb, g2)), depth + len(bs))
            if g2 is not K0:
                out.append((tuple(nb), g2, e2))
        return ("seq", tuple(out))
    if n[0] == "set":
        c = canon(depth, ("any",))
        return ("set", c, subst(n[2], {n[1]: c}), n[3])
    if n[0] == "dict":
        out = []
        for kk, bs, us, g, e in n[1]:
            cs = tuple(canon(depth + k, ("any",)) for k in range(len(bs)))
            m = dict(zip(bs, cs))
            f = (lambda t: subst(t, m)) if m else (lambda t: t)
            g2 = f(g)
            if g2 is not K0:
                out.append((kk, cs, us, g2, vcanon(vmap(e, lambda t: restrict(f(t), g2)), depth + len(bs))))
        return ("dict", tuple(out))
    if n[0] == "case":
        acc = []
        for c, x in n[1]:
            x = vcanon(x, depth)
            alts = [(land(c, c2), x2) for c2, x2 in x[1]] if not isinstance(x, T) and x[0] == "case" else [(c, x)]
            for c, x in alts:
                for k, (c2, x2) in enumerate(acc):
                    if x2 == x:
                        acc[k] = (lor(c2, c), x2)
                        break
                else:
                    acc.append((c, x))
        if len(acc) == 1:
            return acc[0][1]
        kinds = {"T" if isinstance(x, T) else x[0] if x[0] not in ("tuple", "zip") else (x[0], len(x[1])) for _, x in acc}
        if len(kinds) == 1:
            r = merge(acc, kinds.pop(), depth)
            if r is not None:
                return r
        return ("case", tuple(sorted(acc, key=lambda p: p[0].id)))
    if n[0] in ("tuple", "zip"):
        return (n[0], tuple(vcanon(x, depth) for x in n[1]))
    if n[0] == "bag":
        x = vcanon(n[1], depth)
        if x[0] != "seq":
            return ("bag", x)
        return ("bag", ("seq", tuple(sorted(x[1], key=lambda s: skey(s)))))
    return n


def unsure_case(x):
    return not isinstance(x, T) and x[0] == "case"


def merge(acc, kind, depth):
    """One value of the given kind for the exclusive cases acc (all in canonical form)."""
    if kind == "T":
        r = acc[-1][1]
        for c, x in reversed(acc[:-1]):
            r = ite(c, x, r)
        return r
    if kind[0] in ("tuple", "zip"):
        return (kind[0], tuple(vcanon(("case", tuple((c, x[1][k]) for c, x in acc)), depth) for k in range(kind[1])))
    if kind == "set":
        if len({x[3] for _, x in acc}) > 1:
            return None
        return ("set", acc[0][1][1], merge([(c, x[2]) for c, x in acc], "T", depth), acc[0][1][3])
    if kind == "seq":
        out = []
        for c, x in acc:
            last = 0
            for bs, g, e in x[1]:
                g = land(c, g)
                g = witnessed(g, bs, g)
                if g is K0:
                    continue
                for k in range(last, len(out)):
                    if out[k][0] == bs and out[k][2] == e:
                        out[k] = (bs, lor(out[k][1], g), e)
                        last = k + 1
                        break
                else:
                    out.insert(last, (bs, g, e))
                    last += 1
        return ("seq", tuple((bs, g, vmap(e, lambda t: witnessed(restrict(t, g), bs, g))) for bs, g, e in out))
    if kind == "dict":
        by = {}
        for c, x in acc:
            for kk, bs, us, g, e in x[1]:
                by.setdefault(kk, []).append((bs, us, land(c, g), e))
        out = []
        for kk, l in sorted(by.items(), key=repr):
            g = K0
            for p in l:
                g = lor(g, p[2])
            if g is K0:
                continue
            v = vcanon(("case", tuple((p[2], p[3]) for p in l)), depth + len(l[0][0]))
            out.append((kk, l[0][0], l[0][1], g, vmap(v, lambda t: restrict(t, g))))
        return ("dict", tuple(out))
    return None


def skey(s):
    if isinstance(s, T):
        return "%08d" % s.id
    if isinstance(s, tuple):
        return "(" + ",".join(skey(x) for x in s) + ")"
    return str(s)


def veval(n, V, env):
    if isinstance(n, T):
        return sepa.hashable(V.ev(n, env))
    if n[0] == "case":
        for c, x in n[1]:
            if V.ev(c, env):
                return veval(x, V, env)
        raise sepa.Undef("case")
    if n[0] == "tuple":
        return tuple(veval(x, V, env) for x in n[1])
    if n[0] == "seq":
        out = []
        for bs, g, e in n[1]:
            def go(k, env):
                if k == len(bs):
                    if V.ev(g, env):
                        out.append(veval(e, V, env))
                    return
                b, d = bs[k]
                for v in V.dom(d, env, None):
                    e2 = dict(env)
                    e2[b] = v
                    go(k + 1, e2)
            go(0, env)
        return tuple(out)
    if n[0] == "zip":
        # parallel lists: the order of the positions does not matter
        ls = [veval(x, V, env) for x in n[1]]
        if any(len(x) != len(ls[0]) for x in ls):
            return ("lists of different length",) + tuple(len(x) for x in ls)
        return tuple(sorted(zip(*ls), key=repr))
    if n[0] == "bag":
        return tuple(sorted(veval(n[1], V, env), key=repr))
    if n[0] == "set":
        if n[3] is None:
            raise sepa.Undef("set")
        out = []
        for v in range(V.ev(n[3], env)):
            e2 = dict(env)
            e2[n[1]] = v
            if V.ev(n[2], e2):
                out.append(v)
        return frozenset(out)
    if n[0] == "dict":
        out = []
        for kk, bs, us, g, e in n[1]:
            if any(u is None for u in us):
                raise sepa.Undef("keys")
            for ks in itertools.product(*[range(V.ev(u, env)) for u in us]):
                e2 = dict(env)
                e2.update(zip(bs, ks))
                if V.ev(g, e2):
                    out.append(((kk, ks), veval(e, V, e2)))
        return frozenset(out)
    return n


# ---------------------------------------------------------------- running a scenario
class Run:
    def __init__(self, prog, mod, label):
        self.prog, self.label = prog, label
        self.I = CpLib(prog)
        self.mod = mod
        self.I.mod = mod
        self.I.frames.append(Frame(None, 0, mod, None))
        self.obs = {}
        self.claims = {}
        self.error = None

    def cls(self, name):
        if name in self.mod.classes:
            return self.mod.classes[name]
        return self.prog.cls(name)

    def new(self, name, *a, **kw):
        return self.I.instantiate(self.cls(name), list(a), kw)

    def call(self, o, meth, *a, **kw):
        return self.I.call(self.I.get_attr(o, meth), list(a), kw)

    def static(self, cls, meth, *a, **kw):
        from .exec import ClsV
        return self.I.call(self.I.get_attr(ClsV(self.cls(cls)), meth), list(a), kw)

    def func(self, name, *a, **kw):
        from .exec import FuncV
        return self.I.call(FuncV(self.mod.funcs[name]), list(a), kw)

    def attr(self, o, name):
        return self.I.get_attr(o, name)

    def assume(self, c):
        self.I.pc = land(self.I.pc, c)

    def tup(self, *a):
        return self.I.mktuple(list(a))

    def lst(self, *a):
        return self.I.newlist([((), K1, x) for x in a])

    def ob(self, name, v, bag=False):
        n = norm(self.I, v)
        self.obs[name] = (bagof(n) if bag else n, self.I.pc)

    def cond(self, name):
        """Observes whether execution can have come this far without an exception."""
        self.obs[name] = (self.I.pc, K1)

    def raised(self, name, kinds=None, start=0):
        g = K0
        for k, bs, gg, d in self.I.events[start:]:
            if k == "raise" and (kinds is None or d[0] in kinds):
                for b, dom in reversed(bs):
                    gg = Exists(b, dom, gg)
                g = lor(g, gg)
        self.obs[name] = (g, K1)


class Cmp:
    """Compares two runs; collects differences."""

    def __init__(self, code, spec, instances, seed=0, tries=60):
        self.code, self.spec = code, spec
        self.instances = instances
        self.tries = tries
        self.diffs, self.unsure, self.same = [], [], []
        self.pairs = []
        self.rescaled = False                                # a CP objective differs
        self.relaxed = getattr(spec.I, "relaxed", False)     # the models are solved as linear relaxations

    # matching of model families
    def match_models(self):
        cs = [Model(self.code.I, s) for s in self.code.I.solves]
        ss = [Model(self.spec.I, s) for s in self.spec.I.solves]
        self.cm, self.sm = cs, ss
        if len(cs) != len(ss):
            self.diffs.append(("number of solver calls", "%d instead of %d" % (len(cs), len(ss))))
            return False
        done = {}
        for k, (c, s) in enumerate(zip(cs, ss)):
            for m, ms, tag in ((c, cs, "c"), (s, ss, "s")):
                m.sibs = ms[:k + 1]
                for f in m.vars + m.cons:
                    f.label = done.get((tag + ("v" if f in m.vars else "c"), f.oid))
                for f in m.vars + m.cons:
                    for o in ms[:k + 1]:
                        f.guard = o.relabel(f.guard)
            self.match(c, s, done, k)
        return True

    def match(self, c, s, fixed, k):
        n = 0
        for f in s.vars:
            f.label = fixed.setdefault(("sv", f.oid), "v%d_%d" % (s.src.a[1], f.oid))
        for f in s.cons:
            f.label = fixed.setdefault(("sc", f.oid), "k%d_%d" % (s.src.a[1], f.oid))
        s.build()
        todo, used = [], set()
        for f in c.vars:
            f.label = fixed.get(("cv", f.oid))
            if f.label:
                used.add(f.label)
            else:
                todo.append(f)
        cand = []
        for f in todo:
            opts = [g for g in s.vars if g.label not in used and g.key() == f.key() and
                    (g.lb, g.ub, g.int) == (f.lb, f.ub, f.int)]
            if not opts:
                opts = [g for g in s.vars if g.label not in used and g.key() == f.key()]
            cand.append(opts)
        best = None
        combos = 0
        for pick in itertools.product(*[o + [None] if not o else o for o in cand]):
            labs = [g.label for g in pick if g]
            if len(set(labs)) != len(labs):
                continue
            combos += 1
            if combos > 200:
                break
            for f, g in zip(todo, pick):
                f.label = g.label if g else "x%d_%d" % (k, f.oid)
            try:
                c.build()
            except Unsup:
                raise
            bad = (c.obj is not s.obj) + self.count_bad(c, s)
            if best is None or bad < best[0]:
                best = (bad, [f.label for f in todo])
            if bad == 0:
                break
        if best is None:
            for f in todo:
                f.label = "x%d_%d" % (k, f.oid)
            c.build()
        else:
            for f, l in zip(todo, best[1]):
                f.label = l
            c.build()
        for f in todo:
            fixed[("cv", f.oid)] = f.label
        # constraints
        left = list(s.cons)
        rest = []
        usedc = {fixed[("cc", f.oid)] for f in c.cons if ("cc", f.oid) in fixed}
        for f in c.cons:
            if ("cc", f.oid) in fixed:
                f.label = fixed[("cc", f.oid)]
                continue
            for g in left:
                if g.label not in usedc and g.key() == f.key() and g.cond is f.cond:
                    f.label = g.label
                    usedc.add(g.label)
                    left.remove(g)
                    break
            else:
                rest.append(f)
        for f in rest:
            for g in left:
                if g.label not in usedc and g.key() == f.key():
                    f.label = g.label
                    usedc.add(g.label)
                    left.remove(g)
                    break
            else:
                f.label = "y%d_%d" % (k, f.oid)
        for f in c.cons:
            fixed[("cc", f.oid)] = f.label

    def count_bad(self, c, s):
        a = [(f.key(), f.cond) for f in c.cons]
        b = [(f.key(), f.cond) for f in s.cons]
        n = 0
        for x in list(a):
            if x in b:
                b.remove(x)
            else:
                n += 1
        return n + len(b)

    def crelabel(self, t):
        for m in self.cm:
            t = m.relabel(t)
        return t

    def srelabel(self, t):
        for m in self.sm:
            t = m.relabel(t)
        return t

    # comparison
    def run(self):
        if not self.match_models():
            return
        for k, (c, s) in enumerate(zip(self.cm, self.sm)):
            self.cmp_model("model %d" % (k + 1), c, s)
        self.crashes()
        for name in self.spec.obs:
            if name not in self.code.obs:
                self.unsure.append((name, "not observed"))
                continue
            (cv, cpc), (sv, spc) = self.code.obs[name], self.spec.obs[name]
            cv = vcanon(vmap(cv, lambda x: absorb(self.crelabel(x))))
            sv = vcanon(vmap(sv, lambda x: absorb(self.srelabel(x))))
            if cv == sv:
                self.same.append(name)
                continue
            cpc, spc = self.crelabel(cpc), self.srelabel(spc)
            claim = self.code.claims.get(name)
            if claim is not None:
                # the property demands less than equality with the reference
                try:
                    good = claim(cv, sv) if claim.__code__.co_argcount else claim()
                except (Unsup, KeyError, AttributeError, source.Broken) as e:
                    self.unsure.append((name, "differs from the reference; the weaker claim: %s" % e))
                    continue
                if good is K1:
                    self.same.append(name)
                    continue
                self.separate(name, lambda V: bool(V.ev(good, {})), lambda V: True,
                              lambda V: V.ev(cpc, {}) and V.ev(spc, {}), cv, "what the property allows",
                              ok="the claim holds for")
                continue
            if self.stray(cv) or self.stray(sv):
                self.unsure.append((name, "refers to variables or constraints without a counterpart"))
                continue
            self.separate(name, lambda V: veval(cv, V, {}), lambda V: veval(sv, V, {}),
                          lambda V: V.ev(cpc, {}) and V.ev(spc, {}), cv, sv)

    def crashes(self):
        """Exceptions of the code under conditions under which the reference goes on."""
        code = [e for e in self.code.I.events if e[0] == "crash"]
        if not code:
            return
        spec = [e for e in self.spec.I.events if e[0] == "crash"]

        def found(evs, relabel):
            evs = [(str(d[0].a[0])[1:], bs, relabel(g)) for _, bs, g, d in evs]

            def run(V):
                for what, bs, g in evs:
                    def go(k, env):
                        if k == len(bs):
                            return bool(V.ev(g, env))
                        b, d = bs[k]
                        return any(go(k + 1, {**env, b: v}) for v in V.dom(d, env, None))
                    if go(0, {}):
                        return what
                return ""
            return run
        self.separate("exception", found(code, self.crelabel), found(spec, self.srelabel), None,
                      "; ".join(sorted({str(e[3][0].a[0])[1:] for e in code})), "no exception")

    def stray(self, v):
        """Mentions a variable or constraint that only one side has."""
        labs = [{f.label for m in ms for f in m.vars + m.cons} for ms in (self.cm, self.sm)]
        odd = (labs[0] ^ labs[1]) - {None}
        found = []

        def look(t):
            found.extend(x for x in subterms(t) if x.op == "f" and x.a[0] == "ref" and x.a[1] in odd)
            return t
        vmap(v, look)
        return bool(found)

    def cmp_model(self, name, c, s):
        lab = {f.label: f for f in s.vars}
        missing = set(lab) - {f.label for f in c.vars}
        for f in c.vars:
            g = lab.get(f.label)
            if g is None or missing:
                continue
            if (f.lb, f.ub, f.int) != (g.lb, g.ub, g.int):
                self.check_eq("%s: bounds and type of the variables" % name,
                              F("tuple", f.lb, f.ub, f.int), F("tuple", g.lb, g.ub, g.int), f, g)
        extra = [f for f in c.vars if f.label not in lab]
        if extra or missing:
            # the families are split differently: count the variables
            self.separate("%s: number of variables" % name, lambda V: self.total(c, V), lambda V: self.total(s, V),
                          None, None, None)
            self.unsure.append(("%s: variables" % name, "the variable families do not correspond"))
            return
        if c.sense is s.sense:
            self.same.append(name + " sense")
        else:
            self.separate(name + ": direction of optimisation", lambda V: V.ev(c.sense, {}), lambda V: V.ev(s.sense, {}),
                          None, c.sense, s.sense)
        if c.obj is s.obj:
            self.same.append(name + " objective")
        elif c.cp and s.cp:
            self.rescaled = True
            self.separate(name + ": objective", self.ranking(c, s), lambda V: "", None, c.obj, s.obj)
        else:
            self.separate(name + ": objective", lambda V: V.ev(c.obj, {}), lambda V: V.ev(s.obj, {}), None, c.obj, s.obj,
                          model=(c, s))
            tol = Fraction(1, 10 ** 6)
            self.separate(name + ": positive only for positive reduced cost",
                          lambda V: V.ev(c.obj, {}) > tol and V.ev(s.obj, {}) <= 0, lambda V: False, None, c.obj, s.obj,
                          model=(c, s))
        b = list(s.cons)
        rest = []
        for f in c.cons:
            for g in b:
                if g.key() == f.key() and g.cond is f.cond:
                    b.remove(g)
                    self.same.append(name + " constraint family")
                    break
            else:
                rest.append(f)
        if rest or b:
            self.separate_cons(name, c, s, rest, b)

    def ranking(self, c, s):
        """Two feasible points which the objectives order differently (their scale is immaterial)."""
        def run(V):
            g = ground.Ground(s, V)
            pts = []
            for k in range(6):
                x = g.search(random.Random(k))
                if x is None:
                    break
                V.varval = lambda label, args, V_: x.get((label, args))
                a, b = V.ev(c.obj, {}), V.ev(s.obj, {})
                V.varval = None
                for a2, b2 in pts:
                    if (a > a2) - (a < a2) != (b > b2) - (b < b2):
                        return "two feasible points are ranked differently"
                pts.append((a, b))
            if len(pts) < 2:
                raise sepa.Undef("no two feasible points")
            return ""
        return run

    def total(self, m, V):
        n = 0
        for f in m.vars:
            g = f.guard
            for b, d in reversed(f.bs):
                g = Sum(b, d, g)
            n += V.ev(g, {})
        return n

    def check_eq(self, name, a, b, f, g):
        if a is b:
            return

        def val(t, fam):
            def run(V):
                out = []

                def go(k, env):
                    if k == len(fam.bs):
                        if V.ev(fam.guard, env):
                            out.append(sepa.hashable(V.ev(t, env)))
                        return
                    b_, d = fam.bs[k]
                    for v in V.dom(d, env, None):
                        e2 = dict(env)
                        e2[b_] = v
                        go(k + 1, e2)
                go(0, {})
                return out
            return run
        self.separate(name, val(a, f), val(b, g), None, a, b)

    def separate_cons(self, name, c, s, rest, b):
        """Do the two constraint sets allow the same assignments?"""
        what = "; ".join(show(f.cond)[:120] for f in rest[:2]) or "missing"
        want = "; ".join(show(f.cond)[:120] for f in b[:2]) or "none"
        rnd = random.Random(7)

        def one(V):
            gc, gs = ground.Ground(c, V), ground.Ground(s, V)
            r = ground.apart(gc, gs, rnd)
            if r is None and self.relaxed and not gc.funs and not gs.funs:
                r = ground.apart_relaxed(gc, gs)
            if r is None:
                return 0
            return "an assignment that only %s allow" % ("the documented constraints" if r[1] else "these constraints")
        self.separate("%s: constraints" % name, one, lambda V: 0, None, what, want)

    def numbering(self):
        """Index of a variable: the number of variables created before it."""
        memo = {}

        def index(r, V):
            if not (isinstance(r, tuple) and r[0] == "ref"):
                raise sepa.Undef("variable number")
            for m in self.cm:
                at = [k for k, f in enumerate(m.vars) if f.label == r[1]]
                if not at:
                    continue
                if len(at) > 1 or at[0] and m.vars[at[0]].bs:
                    break
                if r[1] not in memo:
                    memo[r[1]] = None
                    seen = []
                    for f in m.vars[:at[0] + 1]:
                        ground.Ground.each(None, f, V, lambda env, args: seen.append((f.label, args)))
                    memo[r[1]] = {v: k for k, v in enumerate(seen) if v[0] == r[1]}
                if memo[r[1]] is None or (r[1], r[2:]) not in memo[r[1]]:
                    break
                return memo[r[1]][r[1], r[2:]]
            raise sepa.Undef("variable number")
        return index

    def solution(self, seed):
        """Values of the decision variables: feasible for the documented model."""
        memo = {}

        def sol(n, a, V):
            if not isinstance(a[0], int) or not 1 <= a[0] <= len(self.sm):
                return None
            if n == "status":
                # mostly solved to optimality
                if ("st", a[0]) not in memo:
                    memo["st", a[0]] = random.Random(str((seed, "status", a[0]))).random() < (.95 if V.syms.get("favoured") else .75)
                return (4 if self.sm[a[0] - 1].cp else 0) if memo["st", a[0]] else None
            if n == "nsol":
                return random.Random(str((seed, "nsol", a[0]))).randint(1, 3) if V.syms.get("favoured") else None
            key = (a[0], a[1] if n == "cbval" else 0)
            if key not in memo:
                g = ground.Ground(self.sm[a[0] - 1], V)
                rnd = random.Random(str((seed, key)))
                if self.relaxed and not g.funs:
                    like = V.syms.get("favoured") if rnd.random() < .9 else None
                    if like:            # other solutions after rows were added
                        like = like[a[0] > 1 and rnd.random() < .7]
                    x = ground.relaxed(g, ground.Lin(0, {v: rnd.randint(-3, 3) if not like else int(v[1] in like)
                                                         for v in g.vars}))
                    memo[key] = (g, x)
                else:
                    x = g.search(rnd)
                    if n == "cbval" and x is not None and rnd.random() < .7:
                        # solutions found late have good values
                        way = 1 if V.ev(self.sm[a[0] - 1].sense, {}) else -1
                        for _ in range(8):
                            y = g.search(rnd)
                            if y is not None and way * g.obj.value(y) > way * g.obj.value(x):
                                x = y
                    memo[key] = (g, x)
            g, x = memo[key]
            if x is None:
                raise sepa.Undef("no feasible solution")
            if n == "objval" and self.rescaled and self.sm[a[0] - 1].cp:
                raise sepa.Undef("objective of another scale")
            if n == "objval":
                return g.obj.value(x)
            r = a[-1]
            if isinstance(r, tuple) and r[0] == "ref" and (r[1], r[2:]) in x:
                return x[r[1], r[2:]]
            raise sepa.Undef("no such variable")
        return sol

    def separate(self, name, fc, fs, pre, cv, sv, model=None, ok="not proved equal"):
        und = 0
        agree = 0
        why = ""
        for seed in range(self.tries):
            for syms in self.instances(seed):
                for k in range(4 if model else 1):
                    V = sepa.Val((seed, k), syms)
                    if not consistent(V):
                        continue
                    V.index = self.numbering()
                    if not model:
                        V.sol = self.solution(seed)
                    try:
                        if pre is not None and not pre(V):
                            continue
                        if model:
                            g = ground.Ground(model[1], V)
                            x = g.search(random.Random(seed * 31 + k))
                            if x is None:
                                continue
                            V.varval = lambda label, args, V: x.get((label, args))
                        a = fc(V)
                        b = fs(V)
                    except sepa.Undef as e:
                        und += 1
                        why = str(e)
                        continue
                    except (TypeError, AttributeError, KeyError, IndexError, ValueError) as e:
                        und += 1
                        why = repr(e)
                        continue
                    if a != b:
                        self.diffs.append((name, "found %s, expected %s (e.g. %s instead of %s)" % (
                            brief(cv), brief(sv), brief(a), brief(b))))
                        return
                    agree += 1
        self.unsure.append((name, "%s (%d valuations agree, %d undefined %s): %s vs %s" % (
            ok, agree, und, why, brief(cv), brief(sv))))


def consistent(V):
    """The declared lengths of the lists hold."""
    for l, n in LENS.items():
        if n is not None and l.op == "s" and l.a[0] in V.syms and hasattr(V.syms[l.a[0]], "__len__"):
            try:
                if V.ev(n, {}) != len(V.syms[l.a[0]]):
                    return False
            except sepa.Undef:
                pass
    return True


def brief(v):
    s = show(v) if isinstance(v, T) else str(v)
    return s if len(s) < 200 else s[:200] + "..."
