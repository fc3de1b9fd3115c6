"""Finite valuations of summary terms.

Used only to withhold alarms: two summaries that are not identical are reported as different only if some valuation of
their symbols (data, dual values, decision variables) separates them."""
import itertools
import math
import random
from fractions import Fraction

from .term import T, opened, open_fold, reopen, BD, typeof, RECS, fresh, S, TY, Unsup, show


class Undef(Exception):
    pass


class Sym:
    """Base of values that depend on decision variables."""


class Rec:
    """Record value: attributes are drawn on demand."""

    def __init__(self, ty, **kw):
        self.__dict__.update(kw)
        self.ty = ty


class Val:
    """A valuation: symbol name -> Python value, plus unknown functions drawn lazily."""

    def __init__(self, seed, syms, varval=None):
        self.rnd = random.Random(str(seed))
        self.syms = syms
        self.fun = {}
        self.varval = varval
        self.sol = None
        self.index = None
        self.steps = 0
        self.fixed = {}

    def draw(self, key, ty):
        if key in self.fun:
            return self.fun[key]
        r = self.rnd
        k = ty[0]
        if k == "int":
            lo = ty[1] if len(ty) > 1 and isinstance(ty[1], (int, Fraction)) else 0
            hi = ty[2] if len(ty) > 2 and isinstance(ty[2], (int, Fraction)) else lo + 3
            v = r.randint(int(lo), int(hi))
        elif k == "real":
            v = Fraction(r.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3, Fraction(1, 2), Fraction(7, 2), Fraction(7, 3)]))
        elif k == "str":
            v = "s%d" % r.randint(0, 3)
        else:
            v = ("any", r.randint(0, 10 ** 6))
        self.fun[key] = v
        return v

    # -- evaluation
    def ev(self, t, env):
        self.steps += 1
        if self.steps > 4000000:
            raise Undef("too long")
        o = t.op
        if o == "k":
            v = t.a[0]
            return v[1:] if isinstance(v, str) else v
        if o in ("b", "B"):
            if t in env:
                return env[t]
            raise Undef("free %s" % show(t))
        if o == "s":
            n = t.a[0]
            if n in self.syms:
                return self.syms[n]
            if n.startswith("<"):
                raise Undef(n)
            if n == "inf":
                return Fraction(10 ** 9)
            return self.draw(("s", n), typeof(t))
        if o == "p":
            tot = 0
            for m, c in t.a[0]:
                tot += self.product(c, m, env)
            return tot
        if o == "d":
            try:
                q = self.num(self.ev(t.a[0], env))
            except Undef:
                # a condition that is undefined here must not matter
                vs = [self.ev(ch, env) for ch in t.a[2]]
                if all(type(v) is type(vs[0]) and v == vs[0] for v in vs):
                    return vs[0]
                raise
            for c, ch in zip(t.a[1], t.a[2]):
                if q < c[0] or (c[1] == 0 and q == c[0]):
                    return self.ev(ch, env)
            return self.ev(t.a[2][-1], env)
        if o == "sum":
            return self.ev_sum(t, env)
        if o == "first":
            h, d, c = t.a
            hb = ("h", h)
            for n, v in enumerate(self.dom(d, env, {})):
                if n > 300:
                    raise Undef("no end")
                b = self.openb(t)
                e = dict(env)
                e[b[0]] = v
                if self.ev(b[1], e):
                    return v
            raise Undef("first")
        if o == "f":
            return self.ev_f(t, env)
        if o == "fold":
            return self.ev_fold(t, env)
        raise Undef(o)

    def ev_fold(self, t, env):
        r = self._open.get(t)
        if r is None:
            r = self._open[t] = open_fold(t)
        b, dom, s, comps, args = r
        n = self.ev(dom[1], env)
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if dom[0] != "R" or not isinstance(n, int):
            raise Undef("range")
        memo = {}

        def value(j, k, xs):
            key = (j, k, hashable(xs))
            if key not in memo:
                fs, init, step, _ = comps[j]
                e = dict(env)
                e.update(zip(fs, xs))
                if k > 0:
                    e[b] = k - 1
                    e[s] = lambda j, xs: value(j, k - 1, xs)
                    v = self.ev(step, e)
                else:
                    v = self.ev(init, e)
                memo[key] = v
            return memo[key]
        return value(0, max(n, 0), tuple(self.ev(x, env) for x in args))

    def product(self, x, fs, env, soft=False):
        und = None
        for y in fs:
            try:
                v = self.num(self.ev(y, env))
            except Undef as e:
                und = e
                continue
            x = x * v
            if isinstance(x, (int, Fraction)) and x == 0:
                return 0
        if und is not None:
            if soft:
                return 1
            raise und
        return x

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction, Sym)):
            return v
        if isinstance(v, float):
            return Fraction(v)
        raise Undef("not a number: %r" % (v,))

    _open = {}

    def openb(self, t):
        r = self._open.get(t)
        if r is None:
            h, d, c = t.a
            b = fresh(None)
            BD[b] = d
            r = self._open[t] = (b, reopen(c, {h: b}))
        return r

    def openS(self, t):
        r = self._open.get(t)
        if r is None:
            r = self._open[t] = opened(t)
        return r

    def dom(self, d, env, _):
        if d[1].op == "s" and d[1].a[0] == "inf":
            return range(64)
        x = self.ev(d[1], env)
        if d[0] == "R":
            if not isinstance(x, int):
                if isinstance(x, Fraction) and x.denominator == 1:
                    x = int(x)
                else:
                    raise Undef("range")
            return range(max(x, 0))
        return list(x)

    def ev_sum(self, t, env):
        bs, doms, mono, lits = self.openS(t)
        env = dict(env)

        def go(k):
            if k == len(bs):
                und = None
                for q, c in lits:
                    try:
                        v = self.num(self.ev(q, env))
                    except Undef as e:
                        und = e
                        continue
                    if v < c[0] or (c[1] == 0 and v == c[0]):
                        return 0
                if und is not None:
                    if self.product(1, mono, env, True) == 0:
                        return 0
                    raise und
                return self.product(1, mono, env)
            s = 0
            ds = self.dom(doms[k], env, None)
            if len(ds) > 10000:
                raise Undef("range")
            for v in ds:
                env[bs[k]] = v
                s += go(k + 1)
            return s
        # domains may depend on earlier binders; order given is outermost first
        return go(0)

    def ev_f(self, t, env):
        n = t.a[0]
        if self.varval is not None and n in ("solval", "isolval", "cbval", "objval", "redcost", "dual"):
            # earlier results, not the variables of the model under construction
            old, self.varval = self.varval, None
            try:
                return self.ev_f(t, env)
            finally:
                self.varval = old
        if n == "st":
            return self.ev(t.a[1], env)(t.a[2], tuple(self.ev(x, env) for x in t.a[4:]))
        a = [self.ev(x, env) if isinstance(x, T) else x for x in t.a[1:]]
        if n == "tuple":
            return tuple(a)
        if n == "sel":
            x, i = a
            if isinstance(x, (list, tuple)):
                i = int(self.num(i))
                if not -len(x) <= i < len(x):
                    raise Undef("index")
                return x[i]
            if isinstance(x, dict):
                if i not in x:
                    raise Undef("key")
                return x[i]
            return self.draw(("sel", x, i), typeof(t))
        if n == "len":
            if hasattr(a[0], "__len__"):
                return len(a[0])
            raise Undef("len")
        if n == "dim":
            return len(a[0][0]) if a[0] else 0
        if n == "attr":
            if isinstance(a[0], Rec):
                if hasattr(a[0], a[1]):
                    return getattr(a[0], a[1])
                v = self.draw(("attr", id(a[0]), a[1]), typeof(t))
                return v
            raise Undef("attribute")
        if n == "vidx" and self.index is not None:
            return self.index(a[0], self)
        if n in ("memb", "in"):
            return 1 if a[0] in a[1] else 0
        if n == "eq":
            return 1 if a[0] == a[1] else 0
        if n == "pos":
            l, v = a
            return list(l).index(v) if v in l else len(l)
        if n == "bitand":
            return int(self.num(a[0])) & int(self.num(a[1]))
        if n == "choice":
            k = int(self.num(a[0]))
            if k <= 0:
                raise Undef("choice")
            return self.draw(("choice",) + tuple(a[1:]), ("int", 0, None)) % k
        if n == "sqrt":
            x = self.num(a[0])
            if x < 0:
                raise Undef("sqrt")
            return Fraction(math.sqrt(x))
        if n == "abs":
            return abs(self.num(a[0]))
        if n in ("int", "float", "round", "strf") and len(a) == 1 and isinstance(a[0], tuple) and a[0][:1] == ("any",):
            return (n, a[0])        # another object
        if n in ("floor", "ceil", "int", "round"):
            x = self.num(a[0])
            return {"floor": math.floor, "ceil": math.ceil, "int": int, "round": round}[n](x)
        if n == "roundn":
            return Fraction(round(Fraction(self.num(a[0])), int(self.num(a[1]))))
        if n == "pow2":
            return Fraction(2) ** int(self.num(a[0]))
        if n == "pow":
            return Fraction(self.num(a[0])) ** int(self.num(a[1]))
        if n == "mod":
            if not a[1]:
                raise Undef("mod")
            return self.num(a[0]) % self.num(a[1])
        if n == "div":
            if not self.num(a[1]):
                raise Undef("division")
            return Fraction(self.num(a[0])) / self.num(a[1])
        if n in ("max", "min"):
            return (max if n == "max" else min)(self.num(x) for x in a)
        if n == "bool":
            return 1 if a[0] else 0
        if n == "ncomb":
            return math.comb(a[0], a[1]) if a[1] >= 0 else 0
        if n == "comb":
            c = list(itertools.combinations(range(a[0]), a[1]))
            if not 0 <= a[2] < len(c):
                raise Undef("comb")
            return list(c[a[2]])
        if n == "log2":
            x = self.num(a[0])
            if x <= 0:
                raise Undef("log")
            return Fraction(math.log2(x)) if x & (x - 1) else int(math.log2(x))
        if n == "strf":
            return "str"
        if n in ("phi", "lastv"):
            raise Undef("phi")
        if n == "ref":
            if self.varval is not None:
                v = self.varval(t.a[1], tuple(a[1:]), self)
                if v is not None:
                    return v
            return ("ref",) + tuple(a)
        if self.sol is not None and n in ("solval", "isolval", "cbval", "objval", "status", "nsol"):
            v = self.sol(n, a, self)
            if v is not None:
                return v
        return self.draw((n,) + tuple(hashable(x) for x in a), typeof(t))


def hashable(x):
    if isinstance(x, list):
        return tuple(hashable(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return frozenset(x)
    if isinstance(x, dict):
        return id(x)
    if isinstance(x, tuple):
        return tuple(hashable(y) for y in x)
    return x
