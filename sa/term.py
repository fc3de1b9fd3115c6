"""Canonical terms: polynomials, decision diagrams over threshold tests, and sums with bound variables.

A term denotes a value as a function of the program inputs and of the (loop) variables free in it.  Two terms that are
the same object denote the same value.  Nothing is ever evaluated on concrete data."""
from fractions import Fraction
from zlib import crc32


class Unsup(Exception):
    """The construct is outside what the analysis understands (never an alarm)."""


class T:
    __slots__ = ("op", "a", "id", "fv", "ht", "sz", "tops", "sk")

    def __repr__(self):
        return show(self)


_tab = {}
_NO = frozenset()


def _hash(x):
    """Structural key that does not depend on the order of creation or the names of open binders."""
    if isinstance(x, T):
        return x.sk
    if isinstance(x, tuple):
        h = 17
        for y in x:
            h = (h * 1000003 + _hash(y) + 29) & 0xffffffffffff
            h ^= h >> 21
        return h
    return crc32(repr(x).encode())


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.a, t.id = op, a, len(_tab)
    fv, ht, sz = _NO, 0, 1
    stack = list(a)
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.fv:
                fv = fv | x.fv
            ht = max(ht, x.ht)
            sz += x.sz
        elif isinstance(x, tuple):
            stack.extend(x)
    if op == "b":
        fv = frozenset((t,))
    elif op == "f" and a[0] == "phi":
        fv = fv | {("phi", a[1])}
    elif op == "B":
        ht = a[0]
    t.fv, t.ht, t.sz = fv, ht, sz
    if op in ("b", "B"):
        t.sk = 7
    elif op == "sum":
        t.sk = _hash((op, len(a[0]), a[1])) + sum(_hash(x) * 31 for x in a[2]) + sum(_hash(x) * 57 for x in a[3])
        t.sk &= 0xffffffffffff
    elif op == "first":
        t.sk = _hash((op,) + a[1:])
    elif op == "p":
        t.sk = sum(_hash((sum(_hash(x) * 13 for x in m), c)) for m, c in a[0]) * 101 & 0xffffffffffff
    else:
        t.sk = _hash(key)
    _tab[key] = t
    return t


def K(v):
    if isinstance(v, bool):
        v = int(v)
    elif isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("s", "inf") if v > 0 else (neg(mk("s", "inf")) if v < 0 else mk("s", "nan"))
        v = Fraction(repr(v))
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return mk("k", "s" + v if isinstance(v, str) else v)


K0, K1, NONE = K(0), K(1), K(None)
BOT = mk("s", "<undefined>")


def S(name, ty=None):
    t = mk("s", name)
    if ty is not None:
        assert TY.get(t, ty) == ty, "symbol %s has two types" % name
        TY[t] = ty
    return t


_nb = [0]
BD = {}      # open binder -> domain  ("R", n) | ("M", list) | None
TY = {}      # symbol term -> type
AXIOMS = dict(disjoint=[], universe={}, member=[])


def member(x, s):
    """x in s, for an input set s."""
    for h in AXIOMS["member"]:
        r = h(x, s)
        if r is not None:
            return r
    return truth(F("memb", x, s))



def fresh(dom=None, hint="i"):
    _nb[0] += 1
    b = mk("b", _nb[0], hint)
    BD[b] = dom
    return b


def isk(t):
    return t.op == "k"


def isnum(t):
    return isk(t) and isinstance(t.a[0], (int, Fraction)) and t.a[0] is not None


# ---------------------------------------------------------------- types
def typeof(t):
    """('int',lo,hi) ('real',) ('str',) ('list',elt,flags) ('set',elt) ('dict',val) ('rec',name,attrs) ('any',) ..."""
    o = t.op
    if o == "k":
        v = t.a[0]
        if v is None:
            return ("none",)
        if isinstance(v, int):
            return ("int", v, v)
        if isinstance(v, Fraction):
            return ("real",)
        return ("str",)
    if o in ("b", "B"):
        return ("int", 0, None)
    if o == "s":
        return TY.get(t, ("any",))
    if o == "p":
        for m, c in t.a[0]:
            if not isinstance(c, int) or any(typeof(x)[0] != "int" for x in m):
                return ("real",)
        return ("int", None, None)
    if o == "sum":
        return ("int", None, None) if all(typeof(x)[0] == "int" for x in t.a[2]) else ("real",)
    if o == "first":
        return ("int", 0, None)
    if o == "fold":
        return t.a[2][0][3]
    if o == "d":
        ts = [typeof(c) for c in t.a[2] if c is not BOT]
        if ts and all(x == ts[0] for x in ts):
            return ts[0]
        if all(x[0] == "int" for x in ts):
            return ("int", None, None)
        if all(x[0] in ("int", "real") for x in ts):
            return ("real",)
        return ("any",)
    if o == "f":
        n = t.a[0]
        if n in FTY:
            r = FTY[n]
            return r(t) if callable(r) else r
    return ("any",)


def _sel_ty(t):
    a = typeof(t.a[1])
    if a[0] in ("list", "dict", "arr"):
        return a[1]
    if a[0] == "arr2":
        return ("list", a[1], ())
    return ("any",)


def _attr_ty(t):
    a = typeof(t.a[1])
    if a[0] == "rec":
        return RECS.get(a[1], {}).get(t.a[2], ("any",))
    return ("any",)


def _rec_ty(t):
    return typeof(t.a[1])[1]


def _phi_ty(t):
    return PHITY.get(t.a[1], ("any",))


RECS = {}
PHITY = {}
BOOL = ("int", 0, 1)
FTY = {"sel": _sel_ty, "attr": _attr_ty, "len": ("int", 0, None), "memb": BOOL, "eq": BOOL, "pos": ("int", 0, None),
       "phi": _phi_ty, "st": lambda t: t.a[3], "solval": ("real",), "dual": ("real",), "objval": ("real",), "status": ("int", 0, 6),
       "floor": ("int", None, None), "ceil": ("int", None, None), "int": ("int", None, None),
       "round": ("int", None, None), "mod": ("int", 0, None), "pow2": ("int", 1, None), "abs": lambda t: ("real",),
       "vidx": ("vidx",), "ref": ("ref",), "tuple": ("tuple",), "bool": BOOL, "div": ("real",), "strf": ("str",),
       "isfitted": BOOL, "dim": ("int", 0, None), "cbval": ("real",), "in": BOOL, "nth": ("int", 0, None),
       "max": lambda t: _minmax_ty(t), "min": lambda t: _minmax_ty(t)}


def _minmax_ty(t):
    ts = [typeof(x) for x in t.a[1:]]
    if all(x[0] == "int" for x in ts):
        los = [x[1] for x in ts]
        return ("int", None, None)
    return ("real",)


def isint(t):
    return typeof(t)[0] == "int"


# ---------------------------------------------------------------- polynomials
def mono_key(m):
    return (len(m), tuple(x.id for x in m))


def terms(t):
    if t.op == "p":
        return dict(t.a[0])
    if t.op == "k":
        v = t.a[0]
        if not isinstance(v, (int, Fraction)):
            raise TypeError(t)
        return {(): v} if v != 0 else {}
    return {(t,): 1}


def poly(d):
    d = {m: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in d.items() if c != 0}
    if not d:
        return K0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return K(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk("p", tuple(sorted(d.items(), key=lambda x: mono_key(x[0]))))


def _numeric(*ts):
    for t in ts:
        if t is BOT or (t.op == "k" and not isinstance(t.a[0], (int, Fraction))):
            return False
        if t.op == "f" and t.a[0] in ("tuple",):
            return False
    return True


def _add(a, b):
    if not _numeric(a, b):
        return BOT
    d = terms(a)
    for m, c in terms(b).items():
        d[m] = d.get(m, 0) + c
    return poly(d)


def _mul(a, b):
    if not _numeric(a, b):
        return BOT
    d = {}
    for m, c in terms(a).items():
        for n, e in terms(b).items():
            k = tuple(sorted(m + n, key=lambda x: x.id))
            d[k] = d.get(k, 0) + c * e
    return poly(d)


def add(a, b):
    return apply(_add, a, b)


def mul(a, b):
    if a is K1:
        return b
    if b is K1:
        return a
    if a is K0 or b is K0:
        return K0
    return apply(_mul, a, b)


def neg(a):
    return apply(_neg, a)


_KM1 = None


def _neg(a):
    return _mul(a, K(-1))


def sub(a, b):
    return add(a, neg(b))


# ---------------------------------------------------------------- decision diagrams
LIMIT = [40000]


def okey(q):
    return (q.ht, q.sz, q.sk, q.id)


def top(args):
    best = None
    for t in args:
        if t.op == "d":
            k = okey(t.a[0])
            if best is None or k < best[0]:
                best = (k, t.a[0])
    return best[1] if best else None


def child_at(t, q, lo):
    """Sub-diagram of t on the interval of q that starts just above cut `lo` (None = lowest)."""
    if t.op != "d" or t.a[0] is not q:
        return t
    for c, ch in zip(t.a[1], t.a[2]):
        if lo is None or c > lo:
            return ch
    return t.a[2][-1]


_apply_memo = {}


def apply(fn, *args):
    for t in args:
        if t.op == "d":
            break
    else:
        return fn(*args)
    memo = {}
    n = [0]

    def go(args):
        r = memo.get(args)
        if r is not None:
            return r
        q = top(args)
        if q is None:
            r = fn(*args)
        else:
            n[0] += 1
            if n[0] > LIMIT[0]:
                raise Unsup("decision diagram too large")
            cuts = sorted({c for t in args if t.op == "d" and t.a[0] is q for c in t.a[1]})
            ch = []
            for lo in [None] + cuts:
                ch.append(go(tuple(child_at(t, q, lo) for t in args)))
            r = node(q, cuts, ch)
        memo[args] = r
        return r

    return go(tuple(args))


def _at_zero(q, high, low):
    """q is a non-negative integer and high has the value low when it is zero."""
    if not isint(q):
        return False
    zero = set()
    for m, c in terms(q).items():
        if c < 0 or len(m) != 1 or rng(m[0])[0] is None or rng(m[0])[0] < 0:
            return False
        zero.add(m[0])

    def gone(x):
        if x in zero:
            return True
        if x.op == "sum":
            for d in x.a[1]:
                if d[0] == "R" and d[1].op != "d":
                    ts = terms(d[1])
                    if ts and all(zero & set(m) for m in ts):
                        return True
        return False
    ts = terms(high)
    d = {m: c for m, c in ts.items() if not any(gone(x) for x in m)}
    return len(d) < len(ts) and poly(d) is low


def node(q, cuts, ch):
    """Children may themselves test variables before q (results of a leaf function): re-sort when needed."""
    cs, hs = [], [ch[0]]
    for c, h in zip(cuts, ch[1:]):
        if h is hs[-1]:
            continue
        cs.append(c)
        hs.append(h)
    if not cs:
        return hs[0]
    if cs[0] == (0, 0) and hs[1].op in ("p", "sum", "f", "s") and hs[0].op in ("p", "k", "f", "s", "sum") and \
            _at_zero(q, hs[1], hs[0]):
        # a count that is zero anyway
        return node(q, cs[1:], hs[1:])
    k = okey(q)
    for h in hs:
        if h.op == "d" and okey(h.a[0]) <= k:
            # rebuild by cases, in order
            r = hs[-1]
            for c, h2 in reversed(list(zip(cs, hs[:-1]))):
                r = ite(mk("d", q, (c,), (K1, K0)), h2, r)
            return r
    return mk("d", q, tuple(cs), tuple(hs))


def ite(c, a, b):
    if a is b:
        return a
    if c is K1:
        return a
    if c is K0:
        return b
    if a is K1 and b is K0:
        return c
    return apply(_ite, c, a, b)


def _ite(c, a, b):
    if c is K1:
        return a
    if c is K0:
        return b
    if isnum(c):
        return a if c.a[0] else b
    raise Unsup("condition is not a truth value: %s" % show(c))


def land(*cs):
    r = K1
    for c in cs:
        if c is K0:
            return K0
        r = ite(r, c, K0) if c is not K1 else r
    return r


def lor(*cs):
    r = K0
    for c in cs:
        if c is K1:
            return K1
        r = ite(r, K1, c) if c is not K0 else r
    return r


def lnot(c):
    return ite(c, K0, K1)


def restrict(v, g):
    """v simplified under the assumption g (don't care elsewhere)."""
    if g is K1 or g is K0:
        return v
    memo = {}

    def go(v, g):
        if g is K1 or v.op != "d":
            return v
        key = (v, g)
        r = memo.get(key)
        if r is not None:
            return r
        q = top((v, g))
        cuts = sorted({c for t in (v, g) if t.op == "d" and t.a[0] is q for c in t.a[1]})
        parts = []
        for lo in [None] + cuts:
            g2 = child_at(g, q, lo)
            parts.append(None if g2 is K0 else go(child_at(v, q, lo), g2))
        live = [p for p in parts if p is not None]
        if not live:
            r = v
        else:
            nxt = live[0]
            out = []
            for p in parts:
                if p is not None:
                    nxt = p
                out.append(nxt)
            r = node(q, cuts, out)
        memo[key] = r
        return r

    return go(v, g)


def leaves(v, acc=None, cond=None):
    """[(condition, leaf)] with merged conditions."""
    out = {}

    memo = {}

    def ls(t):
        if t in memo:
            return memo[t]
        if t.op != "d":
            r = {t}
        else:
            r = set()
            for c in t.a[2]:
                r |= ls(c)
        memo[t] = r
        return r

    lv = sorted(ls(v), key=lambda t: t.id)
    if len(lv) == 1:
        return [(K1, lv[0])]
    return [(where(v, x), x) for x in lv]


def where(v, leaf):
    return apply(lambda x: K1 if x is leaf else K0, v)


# ---------------------------------------------------------------- comparisons
def rng(q, depth=0):
    """Known bounds (lo, hi) of a numeric term."""
    o = q.op
    if isnum(q):
        return q.a[0], q.a[0]
    if o == "b":
        lo, hi = 0, None
        d = BD.get(q)
        if d is None:
            return None, None
        if d[0] == "R" and isnum(d[1]):
            hi = d[1].a[0] - 1
        return lo, hi
    if o == "p":
        # eliminate binders with known range bounds, then add up
        lo = _bound(q, -1, depth)
        hi = _bound(q, 1, depth)
        return lo, hi
    if o == "d":
        los, his = zip(*[rng(c, depth + 1) for c in q.a[2]])
        return (None if None in los else min(los)), (None if None in his else max(his))
    ty = typeof(q)
    if ty[0] == "int":
        lo, hi = ty[1], ty[2]
        if o == "sum":
            lo = 0
            for x in q.a[2]:
                l = rng(x, depth + 1)[0]
                if l is None or l < 0:
                    lo = None
        if o == "f" and q.a[0] == "len":
            d = typeof(q.a[1])
            if d[0] in ("list", "arr", "arr2") and "nonempty" in (d[2] if len(d) > 2 else ()):
                lo = 1
        if o == "f" and q.a[0] == "sel" and isinstance(hi, T):
            hi = None
        return lo, hi
    if o == "sum":
        for x in q.a[2]:
            lo = rng(x, depth + 1)[0]
            if lo is None or lo < 0:
                return None, None
        return 0, None
    if ty[0] == "real" and len(ty) > 1:
        return ty[1], ty[2]
    if o == "f" and q.a[0] == "ref":
        return VARRNG.get(q.a[1], (None, None))
    return None, None


def _bound(q, sign, depth):
    if depth > 6:
        return None
    d = terms(q)
    # pick a binder (innermost first) whose range end is symbolic
    bs = [b for b in q.fv if isinstance(b, T) and BD.get(b) is not None and BD[b][0] == "R"]
    bs.sort(key=lambda b: -b.a[0])
    for b in bs:
        lin = d.get((b,))
        if lin is None or any(b in m and m != (b,) or any(b in x.fv for x in m if x is not b) for m in d):
            continue
        n = BD[b][1]
        if n.op == "d":
            continue
        at = sub(n, K1) if (lin > 0) == (sign > 0) else K0
        rest = poly({m: c for m, c in d.items() if m != (b,)})
        r = _add(rest, _mul(at, K(lin)))
        if b in r.fv:
            return None
        x = rng(r, depth + 1)
        return x[1] if sign > 0 else x[0]
    # numbers of elements of a known list
    for m, c in d.items():
        if len(m) == 1 and m[0].op in ("b", "f") and m[0].a[0] != "ref" and (c > 0) == (sign > 0):
            n = universe(m[0])
            if n is not None and (n,) in d and n is not m[0]:
                r = _add(poly({k: v for k, v in d.items() if k != m}), _mul(sub(n, K1), K(c)))
                if not any(m[0] in k for k in terms(r)):
                    x = rng(r, depth + 1)
                    return x[1] if sign > 0 else x[0]
    tot = 0
    for m, c in d.items():
        if m == ():
            tot += c
            continue
        lo, hi = 1, 1
        ok = True
        for x in m:
            l, h = rng(x, depth + 1)
            if l is None or l < 0:
                ok = False
                if len(m) == 1:
                    lo, hi = l, h
                    ok = True
                break
            lo = lo * l
            hi = None if hi is None or h is None else hi * h
        v = None
        if ok:
            v = (lo if c > 0 else hi) if sign < 0 else (hi if c > 0 else lo)
        if v is None:
            return _counted_bound(q, sign) if depth == 0 else None
        tot += c * v
    return tot


_cbm = {}


def _counted_bound(q, sign):
    """0 if the elements counted by the sums of q contribute nothing of the other sign each."""
    key = (q, sign)
    r = _cbm.get(key, 0)
    if r != 0:
        return r[0]
    _cbm[key] = (None,)
    d = terms(q)
    const = d.get((), 0)
    ms = [(m, c) for m, c in d.items() if m != ()]
    if not 2 <= len(ms) <= 12 or any(len(m) != 1 or m[0].op != "sum" or len(m[0].a[0]) != 1 for m, _ in ms):
        return None
    b, dom, g = None, None, K0
    for m, c in ms:
        (b1,), (d1,), mono, lits = opened(m[0])
        if dom is None:
            b, dom = b1, d1
        if d1 != dom or mono:
            return None
        x = K(c)
        for p_, ct in lits:
            x = mul(x, subst(lit(p_, ct), {b1: b}))
        g = add(g, x)
    lv = [x for _, x in leaves(g)]
    if all(isnum(x) and (x.a[0] >= 0 if sign < 0 else x.a[0] <= 0) for x in lv):
        _cbm[key] = (const,)
    return _cbm[key][0]


def _le0(p):
    """p <= 0"""
    return _cmp(p, False)


def _lt0(p):
    return _cmp(p, True)


def _cmp(p, strict):
    if p is BOT:
        return BOT
    if not _numeric(p):
        raise Unsup("ordering of non-numbers: %s" % show(p))
    if isnum(p):
        return K1 if (p.a[0] < 0 if strict else p.a[0] <= 0) else K0
    d = terms(p)
    c = d.pop((), 0)
    # split off +-inf
    inf = mk("s", "inf")
    if (inf,) in d:
        return K1 if d[(inf,)] < 0 else K0
    q, f = primitive(d)
    if q is None:
        raise Unsup("empty comparison")
    bound = Fraction(-c) / f          # f>0: q <= bound ; f<0: q >= bound
    integer = isint(q)
    if f > 0:
        cut = (bound, -1 if strict else 0)
        val = (K1, K0)
    else:
        cut = (bound, 0 if strict else -1)   # q > bound / q >= bound
        val = (K0, K1)
    if integer:
        cut = _icut(cut)
    return test(q, cut, val)


def _icut(cut):
    b, e = cut
    fl = b.numerator // b.denominator
    if e < 0 and fl == b:
        fl -= 1
    return (Fraction(fl), 0)


def primitive(d):
    """(q, f) with  poly(d) == f * q,  q primitive with positive leading coefficient."""
    if not d:
        return None, None
    lead = min(d, key=lambda m: (-len(m), sorted(x.sk for x in m), tuple(-x.id for x in m)))
    from math import gcd
    num, den = 0, 1
    for c in d.values():
        c = Fraction(c)
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    f = Fraction(num, den)
    if d[lead] < 0:
        f = -f
    return poly({m: Fraction(c) / f for m, c in d.items()}), f


def test(q, cut, val):
    """val[0] if q <= cut else val[1], clipped by the known range of q."""
    lo, hi = rng(q)
    if lo is not None and (Fraction(lo), -1) >= cut:
        return val[1]
    if hi is not None and (Fraction(hi), 0) <= cut:
        return val[0]
    if q.op == "d":
        raise Unsup("nested condition")
    if q.op == "f" and q.a[0] == "floor":
        c = cut[0].numerator // cut[0].denominator - (1 if cut[1] < 0 and cut[0].denominator == 1 else 0)
        return ite(_lt0(_add(q.a[1], K(-c - 1))), *val)
    if q.op == "p" and len(q.a[0]) == 2:
        r = _absent(q, cut[0])
        if r is not None:
            return ite(r, *val)
    return node(q, [cut], list(val))


def _absent(q, c):
    """Position of a value in a list against the list's length (the position of an absent value)."""
    for m, co in q.a[0]:
        x = m[0]
        if len(m) == 1 and x.op == "f" and x.a[0] == "pos" and co in (1, -1):
            n = F("len", x.a[1])
            d = terms(q)
            if d.get((n,)) != -co or n.op == "p":
                return None
            here = truth(F("memb", x.a[2], x.a[1]))
            if co == 1:
                return K1 if c >= 0 else here if c == -1 else None
            return K0 if c < 0 else lnot(here) if c == 0 else None
    return None


def le(a, b):
    return apply(_le0, sub(a, b))


def lt(a, b):
    return apply(_lt0, sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def truth(v):
    return apply(_truth, v)


def _truth(v):
    if v is BOT:
        return BOT
    if v.op == "k":
        x = v.a[0]
        if isinstance(x, str):
            return K1 if len(x) > 1 else K0
        return K1 if x else K0
    ty = typeof(v)
    if ty[0] in ("int", "real"):
        return lnot(_eq(v, K0))
    if ty[0] in ("ref", "vidx", "rec"):
        return K1
    if ty[0] in ("list", "arr", "set", "dict"):
        return gt(F("len", v), K0)
    return F("bool", v)


def eq(a, b):
    return apply(_eq, a, b)


def _eq(a, b):
    if a is b:
        return K1
    if a is BOT or b is BOT:
        return BOT
    if a.op == "k" and b.op == "k":
        return K0
    ta, tb = typeof(a)[0], typeof(b)[0]
    num = ("int", "real")
    if (ta in num or a.op == "p") and (tb in num or b.op == "p"):
        d = _add(a, _neg(b))
        return land(_le0(d), _le0(_neg(d)))
    if "none" in (ta, tb) and (ta in num + ("ref", "vidx", "rec", "list", "str", "tuple", "set", "dict") or
                               tb in num + ("ref", "vidx", "rec", "list", "str", "tuple", "set", "dict")):
        return K0
    if a.op == "f" and b.op == "f" and a.a[0] == b.a[0] and a.a[0] in ("ref", "vidx", "tuple"):
        x, y = a.a[1:], b.a[1:]
        if a.a[0] == "vidx":
            return _eq(a.a[1], b.a[1])
        if a.a[0] == "ref":
            if x[0] != y[0]:
                return K0
            return land(*[eq(p, q) for p, q in zip(x[1:], y[1:])])
        if len(x) != len(y):
            return K0
        return land(*[eq(p, q) for p, q in zip(x, y)])
    if {ta, tb} == {"ref", "int"} or {ta, tb} == {"str", "int"} or {ta, tb} == {"ref", "str"}:
        return K0
    for x, y, ty in ((a, b, tb), (b, a, ta)):
        if x.op == "f" and x.a == ("tuple",) and ty == "list":
            return _le0(F("len", y))
    if a.id > b.id:
        a, b = b, a
    return atom(mk("f", "eq", a, b))


def atom(t):
    """0/1 atom as a condition."""
    return mk("d", t, ((Fraction(0), 0),), (K0, K1))


# ---------------------------------------------------------------- functions
SIMP = {}


def F(name, *args):
    ts = [a for a in args if isinstance(a, T)]
    if any(t.op == "d" for t in ts):
        return apply(lambda *xs: _F(name, args, xs), *ts)
    return _F0(name, args)


def _F(name, args, xs):
    it = iter(xs)
    return _F0(name, tuple(next(it) if isinstance(a, T) else a for a in args))


def _F0(name, args):
    if any(a is BOT for a in args) and name not in ("tuple", "ref"):
        return BOT
    s = SIMP.get(name)
    if s is not None:
        r = s(*args)
        if r is not None:
            return r
    t = mk("f", name, *args)
    if typeof(t) == BOOL:
        return atom(t)
    return t


def _simp_sel(a, i):
    if a.op == "f" and a.a[0] == "tuple" and isnum(i):
        xs = a.a[1:]
        v = i.a[0]
        if -len(xs) <= v < len(xs):
            return xs[v]
    if i.op == "f" and i.a[0] == "pos" and i.a[1] is a:
        return i.a[2]
    if isnum(i) and i.a[0] < 0 and typeof(a)[0] in ("list", "arr"):
        return F("sel", a, add(F("len", a), i))
    return None


def _simp_memb(v, s):
    if v.op == "f" and v.a[0] == "sel" and v.a[1] is s:
        return K1
    # v is an element of a list known to be disjoint from s
    src = v.a[1] if v.op == "f" and v.a[0] == "sel" else None
    if src is None and v.op == "b" and BD.get(v) and BD[v][0] == "M":
        src = BD[v][1]
        if src is s:
            return K1
    if src is not None and disjoint(src, s):
        return K0
    return None


def _simp_attr(o, name):
    ty = typeof(o)
    if ty[0] == "rec" and name == "id" and o.op == "f" and o.a[0] == "sel" and "idpos" in flags(typeof(o.a[1])):
        return o.a[2]
    return None


def flags(ty):
    return ty[2] if len(ty) > 2 and isinstance(ty[2], tuple) else ()


def disjoint(a, b):
    for f in AXIOMS["disjoint"]:
        if f(a, b) or f(b, a):
            return True
    return False


def _simp_pos(l, v):
    if v.op == "f" and v.a[0] == "sel" and v.a[1] is l and "distinct" in flags(typeof(l)):
        return v.a[2]
    return None


def _simp_len(l):
    if l.op == "f" and l.a[0] == "tuple":
        return K(len(l.a) - 1)
    if isk(l) and isinstance(l.a[0], str):
        return K(len(l.a[0]) - 1)
    if l.op == "f" and l.a[0] == "comb":
        return l.a[2]
    return LENS.get(l)


LENS = {}
VARRNG = {}


def _simp_abs(x):
    if isnum(x):
        return K(abs(x.a[0]))
    lo, hi = rng(x)
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return _neg(x)
    d = terms(x)
    q, f = primitive({m: c for m, c in d.items()})
    if f < 0:
        return F("abs", _neg(x))
    return None


def _simp_int(x):
    return x if isint(x) else (K(int(x.a[0])) if isnum(x) else None)


def _simp_floor(x):
    if isint(x):
        return x
    if isnum(x):
        return K(x.a[0].numerator // x.a[0].denominator)
    # pull integer constants and integer monomials out
    d = terms(x)
    out = {m: c for m, c in d.items() if Fraction(c).denominator == 1 and all(isint(y) for y in m)}
    if out:
        rest = poly({m: c for m, c in d.items() if m not in out})
        return _add(poly(out), F("floor", rest))
    return None


def _simp_ceil(x):
    return _neg(F("floor", _neg(x)))


def _simp_pow2(x):
    if isnum(x) and isinstance(x.a[0], int) and 0 <= x.a[0] < 200:
        return K(2 ** x.a[0])
    if x.op == "f" and x.a[0] == "log2":
        return x.a[1]
    if x.op == "p":
        d = terms(x)
        c = d.pop((), 0)
        if c:
            return mul(K(Fraction(2) ** c), F("pow2", poly(d)))
    return None


def _simp_mod(a, b):
    if isnum(a) and isnum(b) and b.a[0]:
        return K(a.a[0] % b.a[0])
    if isnum(b) and isint(a) and isint(b):
        m = b.a[0]
        d = terms(a)
        e = {}
        for k, c in d.items():
            c = c % m
            if c:
                e[k] = c
        if e != d:
            return F("mod", poly(e), b)
    return None


def _simp_div(a, b):
    if isnum(b) and b.a[0] != 0:
        return _mul(a, K(Fraction(1) / b.a[0]))
    if isnum(a) and a.a[0] == 0:
        return K0
    return None


def _simp_minmax(name, x, y):
    if x is y:
        return x
    d = sub(x, y)
    if d.op != "d":
        lo, hi = rng(d)
        if hi is not None and hi <= 0:
            return x if name == "min" else y
        if lo is not None and lo >= 0:
            return y if name == "min" else x
    if x.id > y.id:
        return F(name, y, x)
    return None


def _simp_nth(g, e):
    return None


SIMP.update(sel=_simp_sel, memb=_simp_memb, attr=_simp_attr, pos=_simp_pos, len=_simp_len, abs=_simp_abs,
            int=_simp_int, floor=_simp_floor, ceil=_simp_ceil, pow2=_simp_pow2, mod=_simp_mod, div=_simp_div,
            max=lambda x, y: _simp_minmax("max", x, y), min=lambda x, y: _simp_minmax("min", x, y))


# ---------------------------------------------------------------- substitution
def subst(t, m):
    """m: {atom term: term}; atoms are open binders or phi terms (matched by term)."""
    if not m:
        return t
    keys = set()
    for k in m:
        keys |= k.fv if k.op != "b" else {k}
    return rewrite(t, m.get, keys)


def rewrite(t, hook, keys=None):
    """Replaces every subterm x with hook(x) if that is not None."""
    memo = {}

    def go(t):
        if keys is not None and not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = hook(t)
        if r is not None:
            pass
        elif t.op in ("k", "s", "b", "B"):
            r = t
        elif t.op == "f":
            r = F(*[go(x) if isinstance(x, T) else x for x in t.a])
            if t.a[0] == "eq":
                r = eq(go(t.a[1]), go(t.a[2]))
        elif t.op == "p":
            r = K0
            for mo, c in t.a[0]:
                x = K(c)
                for y in mo:
                    x = mul(x, go(y))
                r = add(r, x)
        elif t.op == "d":
            q = go(t.a[0])
            ch = [go(c) for c in t.a[2]]
            r = ch[-1]
            for c, h in reversed(list(zip(t.a[1], ch[:-1]))):
                r = ite(apply(lambda x: _le_cut(x, c), q), h, r)
        elif t.op == "sum":
            bs, doms, mono, lits = opened(t)
            doms = [tuple(go(x) if isinstance(x, T) else x for x in d) for d in doms]
            for b, d in zip(bs, doms):
                BD[b] = d
            body = K1
            for x in mono:
                body = mul(body, go(x))
            for q, c in lits:
                body = mul(body, lnot(apply(lambda x: _le_cut(x, c), go(q))))
            for b, d in reversed(list(zip(bs, doms))):
                body = Sum(b, d, body)
            r = body
        elif t.op == "first":
            h, d, c = t.a
            b = fresh(d)
            d = tuple(go(x) if isinstance(x, T) else x for x in d)
            BD[b] = d
            r = First(b, d, go(reopen(c, {h: b})))
        elif t.op == "fold":
            r = refold(t, go)
        else:
            raise AssertionError(t.op)
        memo[t] = r
        return r

    return go(t)


def _le_cut(x, cut):
    if x is BOT:
        return BOT
    b, e = cut
    d = _add(x, K(-b))
    return _le0(d) if e == 0 else _lt0(d)


def reopen(t, hm):
    """Replace bound variables B_h by open binders (hm: h -> binder)."""
    memo = {}

    def has(t):
        return t.ht > 0

    def go(t):
        if t.ht == 0:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "B":
            r = hm.get(t.a[0], t)
        elif t.op == "f":
            r = mk("f", *[go(x) if isinstance(x, T) else x for x in t.a])
        elif t.op == "p":
            d = {}
            for mo, c in t.a[0]:
                k = tuple(sorted((go(x) for x in mo), key=lambda x: x.id))
                d[k] = d.get(k, 0) + c
            r = poly(d)
        elif t.op == "d":
            q = go(t.a[0])
            ch = [go(c) for c in t.a[2]]
            r = ch[-1]
            for c, h in reversed(list(zip(t.a[1], ch[:-1]))):
                r = ite(apply(lambda x: _le_cut(x, c), q), h, r)
        elif t.op == "sum":
            if not any(h in hm for h in _bound_free(t)):
                r = t
            else:
                inner = {x: go(x) for x in ()}
                bs, doms, mono, lits = opened(t)
                doms = [tuple(go(x) if isinstance(x, T) else x for x in d) for d in doms]
                for b, d in zip(bs, doms):
                    BD[b] = d
                body = K1
                for x in mono:
                    body = mul(body, go(x))
                for q, c in lits:
                    body = mul(body, lnot(apply(lambda x: _le_cut(x, c), go(q))))
                for b, d in reversed(list(zip(bs, doms))):
                    body = Sum(b, d, body)
                r = body
        elif t.op == "first":
            h, d, c = t.a
            if not any(x in hm for x in _bound_free(t)):
                r = t
            else:
                b = fresh(d)
                d2 = tuple(go(x) if isinstance(x, T) else x for x in d)
                BD[b] = d2
                r = First(b, d2, go(reopen(c, {h: b})))
        elif t.op == "fold":
            r = refold(t, go) if any(h in hm for h in _bound_free(t)) else t
        else:
            r = t
        memo[t] = r
        return r

    return go(t)


def _bound_free(t):
    """Heights of bound variables occurring free in t."""
    if t.ht == 0:
        return _NO
    r = _bf.get(t)
    if r is None:
        acc = set()
        if t.op == "B":
            acc.add(t.a[0])
        else:
            st = list(t.a)
            while st:
                x = st.pop()
                if isinstance(x, T):
                    acc |= _bound_free(x)
                elif isinstance(x, tuple):
                    st.extend(x)
            if t.op == "sum":
                acc -= set(t.a[0])
            elif t.op == "first":
                acc.discard(t.a[0])
            elif t.op == "fold":
                acc -= set(t.a[0])
                for x in t.a[3]:
                    acc |= _bound_free(x)
        r = _bf[t] = frozenset(acc)
    return r


_bf = {}


def opened(t):
    """(binders, doms, mono, lits) of a sum with fresh open binders."""
    hs, doms, mono, lits = t.a
    bs = [fresh(None) for _ in hs]
    hm = dict(zip(hs, bs))
    nd = []
    for b, d in zip(bs, doms):
        d = tuple(reopen(x, hm) if isinstance(x, T) else x for x in d)
        BD[b] = d
        nd.append(d)
    return bs, nd, [reopen(x, hm) for x in mono], [(reopen(q, hm), c) for q, c in lits]


# ---------------------------------------------------------------- sums
def expand(v):
    """Numeric diagram -> {(lits, mono): coef}; lits: frozenset of (q, cut) meaning [q > cut]."""
    memo = {}

    def go(v):
        r = memo.get(v)
        if r is not None:
            return r
        if v.op != "d":
            if v is BOT or not _numeric(v):
                raise Unsup("sum of a non-number: %s" % show(v))
            r = {(_NO, m): c for m, c in terms(v).items()}
        else:
            q, cuts, ch = v.a
            r = dict(go(ch[0]))
            for i, c in enumerate(cuts):
                a, b = go(ch[i + 1]), go(ch[i])
                for k in set(a) | set(b):
                    d = a.get(k, 0) - b.get(k, 0)
                    if d:
                        k2 = (k[0] | {(q, c)}, k[1])
                        r[k2] = r.get(k2, 0) + d
            r = {k: c for k, c in r.items() if c}
        if len(r) > 3000:
            raise Unsup("sum too large")
        memo[v] = r
        return r

    return go(v)


def lit(q, c):
    return mk("d", q, (c,), (K0, K1))


def domain_guard(v, dom):
    """Condition that v lies in the domain."""
    if dom[0] == "R":
        return land(ge(v, K0), lt(v, dom[1])) if not _in_range(v, dom[1]) else K1
    if dom[0] == "M":
        return member(v, dom[1])
    raise Unsup("domain")


def _in_range(v, n):
    """Elements of a list of identifiers with universe n."""
    u = universe(v)
    return u is not None and u is n


def universe(v):
    if v.op == "b" and BD.get(v):
        d = BD[v]
        return d[1] if d[0] == "R" else elem_universe(d[1]) if len(d) > 1 and isinstance(d[1], T) else None
    if v.op == "f" and v.a[0] == "sel":
        return elem_universe(v.a[1])
    if v.op == "f" and v.a[0] == "choice":
        return v.a[1]
    if v.op == "f" and v.a[0] == "attr":
        ty = typeof(v)
        if ty[0] == "int" and len(ty) > 3:
            return AXIOMS["universe"].get(ty[3])
    return None


def elem_universe(l):
    ty = typeof(l)
    if ty[0] in ("list", "set", "arr") and len(ty) > 1 and ty[1][0] == "int" and len(ty[1]) > 3:
        return AXIOMS["universe"].get(ty[1][3])
    return None


def solve_for(b, q, c):
    """If  q == c  determines the binder b: ('v', value) or ('l', list, value)."""
    d = terms(q) if q.op in ("p",) else {(q,): 1}
    if q is b:
        return ("v", K(c))
    hit = None
    for m, co in d.items():
        if any(b in x.fv for x in m):
            if hit is not None or len(m) != 1:
                return None
            hit = (m[0], co)
    if hit is None or hit[1] not in (1, -1):
        return None
    rest = poly({m: co for m, co in d.items() if m != (hit[0],)})
    val = _mul(_add(K(c), _neg(rest)), K(hit[1]))
    x = hit[0]
    if x is b:
        return ("v", val)
    if x.op == "f" and x.a[0] == "sel" and x.a[2] is b and "distinct" in flags(typeof(x.a[1])) and b not in x.a[1].fv:
        return ("l", x.a[1], val)
    return None


def rank(g, b, dom, at):
    """Number of positions before `at` in the domain where g(b) holds."""
    b2 = fresh(("R", at))
    return Sum(b2, ("R", at), subst(g, {b: b2}))


def inhabited(v, dom):
    """v, given that the domain has an element."""
    if not isinstance(v, T) or v.op != "d" or dom[0] != "R" or not isinstance(dom[1], T) or dom[1].op == "d" or \
            not isint(dom[1]):
        return v
    n = dom[1]
    memo, known = {}, {}

    def least(q):
        r = known.get(q)
        if r is None:
            r = -1
            if q is n:
                r = 1
            elif isint(q) and q.op in ("f", "p", "s") and (q.fv == n.fv or n.fv <= q.fv):
                lo, _ = rng(sub(q, n))
                if lo is not None:
                    r = 1 + lo
            known[q] = r
        return r

    def go(t):
        if t.op != "d":
            return t
        r = memo.get(t)
        if r is None:
            q, lo = t.a[0], least(t.a[0])
            cs, hs = list(t.a[1]), list(t.a[2])
            while lo >= 1 and cs and (cs[0][0] < lo):
                cs.pop(0)
                hs.pop(0)
            hs = [go(h) for h in hs]
            r = memo[t] = node(q, cs, hs) if cs else hs[0]
        return r
    return go(v)


def Sum(b, dom, body):
    """Sum of body over b in dom (a canonical numeric term)."""
    if body is K0:
        return K0
    if dom[0] == "R" and isnum(dom[1]) and dom[1].a[0] <= 0:
        return K0
    if dom[0] == "R" and dom[1] is K1:
        return subst(body, {b: K0})
    if dom[0] == "R" and dom[1].op == "d":
        return apply(lambda n: _Sum_n(b, n, body), dom[1])
    if dom[0] == "M" and dom[1].op == "d":
        return apply(lambda l: Sum(*_rebind(b, ("M", l), body)), dom[1])
    body = inhabited(body, dom)
    if b not in body.fv:
        return mul(body, count(dom))
    if dom[0] == "R" and dom[1].op == "p":
        c = terms(dom[1]).get((), 0)
        if c in (-1, -2) and isint(dom[1]):
            # indices counted from the start of the underlying range
            n = sub(dom[1], K(c))
            i = fresh(("R", n))
            whole = subst(body, {b: add(i, K(c))})
            r = Sum(i, ("R", n), whole)
            for k in range(-int(c)):
                r = sub(r, mul(gt(n, K(k)), subst(whole, {i: K(k)})))
            return r
    # conditions and case distinctions that single out one value
    r = _onepoint(b, dom, body)
    if r is not None:
        return r
    if dom[0] == "R" and body.op == "d":
        end = _break_point(b, dom[1], body)
        if end is not None:
            m = sub(dom[1], end)
            i, j = fresh(("R", end)), fresh(("R", m))
            return add(Sum(i, ("R", end), subst(body, {b: i})), Sum(j, ("R", m), subst(body, {b: add(j, end)})))
    acc = K0
    for (lits, mono), c in expand(body).items():
        out = K(c)
        lin, lout = [], K1
        for q, cut in lits:
            if b in q.fv:
                lin.append((q, cut))
            else:
                lout = land(lout, lit(q, cut))
        min_, mout = [], []
        for x in mono:
            (min_ if b in x.fv else mout).append(x)
        if dom[0] == "R":
            for q, cut in lin:
                r = one_bound(b, dom[1], q, cut)
                if r is not None:
                    break
            else:
                r = None
            if r is not None:
                m = sub(dom[1], r[1]) if r[0] == "lo" else r[1]
                i = fresh(("R", m))
                rest = K1
                for q, cut in lin:
                    rest = mul(rest, lit(q, cut))
                for x in min_:
                    rest = mul(rest, x)
                out = mul(out, inhabited(lout, dom))
                for x in mout:
                    out = mul(out, x)
                acc = add(acc, mul(out, Sum(i, ("R", m), subst(rest, {b: add(i, r[1]) if r[0] == "lo" else i}))))
                continue
        out = mul(out, inhabited(lout, dom))
        for x in mout:
            out = mul(out, x)
        acc = add(acc, mul(out, _sum1(b, dom, lin, min_)))
    return acc


def one_bound(b, n, q, c):
    """[q > c] as a lower ('lo', L) or upper ('hi', H) end of the range 0..n of b."""
    ts = terms(q) if q.op in ("p", "b") else None
    if ts is None:
        return None
    k = ts.pop((b,), 0)
    if k not in (1, -1) or any(b in x.fv for m in ts for x in m) or Fraction(c[0]).denominator != 1 or \
            not all(isinstance(v, int) for v in ts.values()) or any(not isint(x) for m in ts for x in m):
        return None
    least = int(c[0]) + (1 if c[1] == 0 else 0)
    rest = poly(ts)
    if k == 1:
        end, kind = sub(K(least), rest), "lo"
    else:
        end, kind = add(sub(rest, K(least)), K1), "hi"
    if end is K0 and kind == "lo" or end is n:
        return None
    for t in (end, sub(n, end)):
        lo, _ = rng(t)
        if lo is None or lo < 0:
            return None
    return kind, end


def _break_point(b, n, body):
    """A position inside the range 0..n of b at which a case distinction of body changes."""
    seen, st = set(), [body]
    while st:
        t = st.pop()
        if t.op != "d" or t in seen:
            continue
        seen.add(t)
        st.extend(t.a[2])
        if b in t.a[0].fv:
            for c in t.a[1]:
                r = one_bound(b, n, t.a[0], c)
                if r is not None:
                    return r[1]
    return None


def shift_guard(b, n, g):
    """(new binder, its range, value of b) when the condition g bounds the range of b."""
    if g.op != "d":
        return None
    seen, st = set(), [g]
    while st:
        t = st.pop()
        if t.op != "d" or t in seen:
            continue
        seen.add(t)
        st.extend(t.a[2])
        q = t.a[0]
        if b in q.fv:
            for c in t.a[1]:
                for l, pol in ((lit(q, c), 0), (lit(neg(q), (-c[0], 1 - c[1])), 1)):
                    x = mk("d", q, (c,), (K0, K1) if pol == 0 else (K1, K0))
                    if land(g, lnot(x)) is not K0:
                        continue
                    r = one_bound(b, n, l.a[0], l.a[1][0])
                    if r is None:
                        continue
                    if r[0] == "lo":
                        m = sub(n, r[1])
                        i = fresh(("R", m))
                        return i, m, add(i, r[1])
                    i = fresh(("R", r[1]))
                    return i, r[1], i
    return None


def _rebind(b, dom, body):
    b2 = fresh(dom)
    return b2, dom, subst(body, {b: b2})


def _Sum_n(b, n, body):
    if n is BOT:
        return BOT
    b2 = fresh(("R", n))
    return Sum(b2, ("R", n), subst(body, {b: b2}))


def count(dom):
    if dom[0] == "R":
        n = dom[1]
        lo, hi = rng(n) if n.op != "d" else (None, None)
        if lo is None or lo < 0:
            n = ite(ge(n, K0), n, K0)
        return n
    if dom[0] == "M":
        return F("len", dom[1])
    raise Unsup("count")


def _onepoint(b, dom, body):
    if body.op != "d":
        return None
    # find a test node on which a single value of b is singled out
    seen, st = set(), [body]
    while st:
        t = st.pop()
        if t.op != "d" or t in seen:
            continue
        seen.add(t)
        q, cuts, ch = t.a
        if b in q.fv and isint(q):
            cs = list(cuts)
            for i in range(1, len(cs)):
                if cs[i][0] - cs[i - 1][0] == 1:
                    s = solve_for(b, q, cs[i][0])
                    if s is not None:
                        return _split_point(b, dom, body, q, cs[i][0], s)
            # boundary points with known range: q <= lo / q > hi-1
            lo, hi = rng(q)
            if lo is not None and cs[0][0] == lo:
                s = solve_for(b, q, lo)
                if s is not None:
                    return _split_point(b, dom, body, q, Fraction(lo), s)
            if hi is not None and cs[-1][0] == hi - 1 and not (q is b):
                s = solve_for(b, q, hi)
                if s is not None:
                    return _split_point(b, dom, body, q, Fraction(hi), s)
        st.extend(ch)
    return None


def _split_point(b, dom, body, q, c, s):
    """Sum(body) = Sum(body with the value at q==c replaced by its neighbour) + (difference at the point)."""
    is_c = land(le_cut(q, (c, 0)), lnot(le_cut(q, (c - 1, 0))))
    at = restrict(body, is_c)
    lo, hi = rng(q)
    if hi is not None and c == hi:
        nb = land(le_cut(q, (c - 1, 0)), lnot(le_cut(q, (c - 2, 0))))
    else:
        nb = land(le_cut(q, (c + 1, 0)), lnot(le_cut(q, (c, 0))))
    other = restrict(body, nb) if nb is not K0 else K0
    # when everything apart from the point is zero the neighbour is zero too
    if ite(is_c, K0, body) is K0:
        other = K0
    rest = ite(is_c, other, body)
    diff = sub(at, other)
    if s[0] == "v":
        val = s[1]
        point = mul(domain_guard(val, dom), subst(diff, {b: val}))
    else:
        _, l, val = s
        pos = F("pos", l, val)
        point = mul(land(truth(F("memb", val, l)), _dom_pos(dom, l, pos)), subst(diff, {b: pos}))
    if rest is not K0 and rest is body:
        return None
    return add(Sum(b, dom, rest), point)


def le_cut(q, cut):
    return apply(lambda x: _le_cut(x, cut), q)


def _dom_pos(dom, l, pos):
    if dom[0] == "R" and dom[1] is F("len", l):
        return K1
    return domain_guard(pos, dom)


def _sum1(b, dom, lits, mono):
    """Sum over b of the product of [q > cut] and the atoms of mono (all depend on b)."""
    if not lits and not mono:
        return count(dom)
    # position in a list of distinct values -> value
    if dom[0] == "R":
        n = dom[1]
        if n.op == "f" and n.a[0] == "len" and "distinct" in flags(typeof(n.a[1])):
            l = n.a[1]
            if b not in l.fv:
                v = fresh(("M", l))
                r = _unindex(b, l, v, lits, mono)
                if r is not None:
                    b, dom = v, ("M", l)
                    lits, mono = r
                    # conditions may have become trivial
                    body = K1
                    for q, c in lits:
                        body = mul(body, q if False else _lit_val(q, c))
                    for x in mono:
                        body = mul(body, x)
                    if body.op == "d" or len(terms(body) if body.op != "k" else {}) != 1 or body is K1:
                        return Sum(b, dom, body)
                    mm, cc = list(terms(body).items())[0]
                    if cc != 1 or any(b not in x.fv for x in mm):
                        return Sum(b, dom, body)
                    mono = list(mm)
                    lits = []
    if dom[0] == "R":
        for q, c in lits:
            if q.op == "f" and q.a[0] == "memb" and q.a[1] is b and b not in q.a[2].fv:
                l = q.a[2]
                if elem_universe(l) is dom[1] and ("distinct" in flags(typeof(l)) or typeof(l)[0] == "set"):
                    v = fresh(("M", l))
                    body = K1
                    for q2, c2 in lits:
                        if q2 is not q:
                            body = mul(body, subst(lit(q2, c2), {b: v}))
                    for x in mono:
                        body = mul(body, subst(x, {b: v}))
                    return Sum(v, ("M", l), body)
    # flatten an inner sum
    inner = [x for x in mono if x.op == "sum"]
    if len(inner) == 1 and inner[0] in mono:
        s = inner[0]
        bs, doms, m2, l2 = opened(s)
        mono2 = [x for x in mono if x is not s] + m2
        return close([b] + bs, [dom] + doms, mono2, lits + l2)
    return close([b], [dom], mono, lits)


def _lit_val(q, c):
    return lnot(le_cut(q, c))


def _unindex(b, l, v, lits, mono):
    e = mk("f", "sel", l, b)
    ph = {b: F("pos", l, v)}
    nl = []
    for q, c in lits:
        q2 = subst(q, ph)
        if q2.op == "d" or any(x.op == "f" and x.a[0] == "pos" for x in subterms(q2)):
            if any(x.op == "f" and x.a[0] == "pos" and v in x.fv for x in subterms(q2)):
                return None
        nl.append((q2, c))
    nm = []
    for x in mono:
        x2 = subst(x, ph)
        if any(y.op == "f" and y.a[0] == "pos" and v in y.fv for y in subterms(x2)):
            return None
        nm.append(x2)
    return nl, nm


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def _closeN(bs, doms, mono, lits):
    base = 0
    for x in list(mono) + [q for q, _ in lits] + [y for d in doms for y in d if isinstance(y, T)]:
        base = max(base, x.ht)
    hm = {b: mk("B", base + 1 + i) for i, b in enumerate(bs)}
    m2 = tuple(sorted((_close_sub(x, hm) for x in mono), key=lambda x: x.id))
    l2 = tuple(sorted(((_close_sub(q, hm), c) for q, c in lits), key=lambda x: (x[0].id, x[1])))
    d2 = tuple(tuple(_close_sub(x, hm) if isinstance(x, T) else x for x in d) for d in doms)
    return mk("sum", tuple(base + 1 + i for i in range(len(bs))), d2, m2, l2)


def _close_sub(t, hm):
    """Plain renaming of open binders into bound variables (keeps structure)."""
    memo = {}
    ks = set(hm)

    def go(t):
        if not (t.fv & ks):
            return t
        r = memo.get(t)
        if r is None:
            if t in hm:
                r = hm[t]
            else:
                r = _remk(t, go)
            memo[t] = r
        return r

    return go(t)


def _remk(t, go):
    def g(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    if t.op == "p":
        d = {}
        for m, c in t.a[0]:
            k = tuple(sorted((go(x) for x in m), key=lambda x: x.id))
            d[k] = d.get(k, 0) + c
        return poly(d)
    if t.op == "d":
        # keep canonical order of the tests
        ch = [go(c) for c in t.a[2]]
        q = go(t.a[0])
        if q.op == "p":
            # leading sign may flip
            qq, f = primitive(terms(q))
        r = ch[-1]
        for c, h in reversed(list(zip(t.a[1], ch[:-1]))):
            r = ite(_raw_le(q, c), h, r)
        return r
    if t.op == "sum":
        a = [g(x) for x in t.a]
        a[2] = tuple(sorted(a[2], key=lambda x: x.id))
        a[3] = tuple(sorted(a[3], key=lambda x: (x[0].id, x[1])))
        return mk("sum", *a)
    if t.op == "f" and t.a[0] == "eq":
        x, y = go(t.a[1]), go(t.a[2])
        if x.id > y.id:
            x, y = y, x
        return mk("f", "eq", x, y)
    return mk(t.op, *[g(x) for x in t.a])


def _raw_le(q, cut):
    """[q <= cut] without range reasoning (bound variables carry no facts)."""
    d = terms(q)
    c0 = d.pop((), 0)
    p, f = primitive(d)
    b, e = cut
    b = (Fraction(b) - c0) / f
    if f > 0:
        cc = (b, e)
        val = [K1, K0]
    else:
        cc = (b, -1 if e == 0 else 0)
        val = [K0, K1]
    if isint(p):
        cc = _icut(cc)
    return node(p, [cc], val)


_close_memo = {}


def close(bs, doms, mono, lits):
    """Closes the binders in the canonical order."""
    if len(bs) == 1:
        return _norm_lits(bs, doms, mono, lits)
    import itertools
    best = None
    for perm in itertools.permutations(range(len(bs))) if len(bs) <= 3 else [tuple(range(len(bs)))]:
        ok = True
        for x, i in enumerate(perm):
            later = {bs[j] for j in perm[x:]}
            if any(isinstance(y, T) and y.fv & later for y in doms[i]):
                ok = False
        if not ok:
            continue
        t = _norm_lits([bs[i] for i in perm], [doms[i] for i in perm], mono, lits)
        if best is None or t.id < best.id:
            best = t
    return best


def _norm_lits(bs, doms, mono, lits):
    return _closeN(bs, doms, mono, lits)


def Exists(b, dom, g):
    g = inhabited(g, dom)
    if g is K0:
        return K0
    if b not in g.fv:
        return land(g, gt(count(dom), K0))
    # conditions that do not depend on b can be decided first
    q = _free_test(g, b)
    if q is not None:
        cuts = sorted(_cuts_of(g, q))
        parts = []
        for i, lo in enumerate([None] + cuts):
            parts.append(Exists(b, dom, _cof(g, q, lo)))
        return _byq(q, cuts, parts)
    # disjunctions of equalities
    if dom[0] == "R" and isnum(dom[1]) and dom[1].a[0] == 1:
        return subst(g, {b: K0})
    return ge(Sum(b, dom, g), K1)


def _byq(q, cuts, parts):
    r = parts[-1]
    for c, h in reversed(list(zip(cuts, parts[:-1]))):
        r = ite(mk("d", q, (c,), (K1, K0)), h, r)
    return r


def _cuts_of(g, q):
    out, seen, st = set(), set(), [g]
    while st:
        t = st.pop()
        if t.op != "d" or t in seen:
            continue
        seen.add(t)
        if t.a[0] is q:
            out |= set(t.a[1])
        st.extend(t.a[2])
    return out


def _cof(g, q, lo):
    memo = {}

    def go(t):
        if t.op != "d":
            return t
        r = memo.get(t)
        if r is None:
            if t.a[0] is q:
                r = child_at(t, q, lo)
            else:
                r = node(t.a[0], list(t.a[1]), [go(c) for c in t.a[2]])
            memo[t] = r
        return r

    return go(g)


def _free_test(g, b):
    seen, st = set(), [g]
    best = None
    while st:
        t = st.pop()
        if t.op != "d" or t in seen:
            continue
        seen.add(t)
        if b not in t.a[0].fv:
            if best is None or okey(t.a[0]) < okey(best):
                best = t.a[0]
        st.extend(t.a[2])
    return best


def quantified(q, cut):
    """(binder, domain, g) such that [q <= cut] means that no element of the domain satisfies g, or None."""
    if q.op == "sum":
        q = mk("p", (((q,), 1),))
    if q.op != "p":
        return None
    if cut == (-1, 0):
        r = quantified(neg(q), (0, 0))
        return None if r is None else r[:3] + (False,)
    sums = [x for m, c in q.a[0] for x in m if x.op == "sum" and len(x.a[0]) == 1]
    for s0 in sums:
        (b,), (dom,), _, _ = opened(s0)
        if dom[0] == "M":
            # positions instead of elements
            b2 = fresh(("R", F("len", dom[1])))
            dom, el = ("R", F("len", dom[1])), {b: F("sel", dom[1], b2)}
            b = b2
        g, ok = K0, True
        n = count(dom)
        for m, c in q.a[0]:
            if m == ():
                ok = c == -cut[0] and False
                break
            if len(m) == 1 and m[0].op == "sum" and len(m[0].a[0]) == 1:
                (b1,), (d1,), mono, lits = opened(m[0])
                if d1[0] == "M" and F("len", d1[1]) is dom[1]:
                    at = F("sel", d1[1], b)
                elif d1 == dom:
                    at = b
                else:
                    ok = False
                    break
                x = K(c)
                for y in mono:
                    x = mul(x, subst(y, {b1: at}))
                for p_, ct in lits:
                    x = mul(x, subst(lit(p_, ct), {b1: at}))
                g = add(g, x)
            elif poly({m: 1}) is n:
                g = add(g, K(c))
            else:
                ok = False
                break
        if not ok or cut[0] != 0 or cut[1] != 0:
            continue
        lv = {x for _, x in leaves(g)}
        if lv <= {K0, K1}:
            return b, dom, g, True
    return None


def absorb(v):
    """A universally quantified condition makes the same condition on the first element redundant; an element with
    one property makes the existence of an element with a weaker one redundant."""
    if v.op != "d" or not {x for _, x in leaves(v)} <= {K0, K1}:
        return v
    tests = tests_of(v)
    if len(tests) > 40:
        return v
    qs = []
    for q, c in tests:
        z = quantified(q, c)
        if z is None:
            continue
        b, dom, g, holds = z
        e = mk("d", q, (c,), (K1, K0) if holds else (K0, K1))
        qs.append((b, dom, g, e))
        for flip in (False, True):
            w = lnot(v) if flip else v
            if land(w, lnot(e)) is not K0:
                continue
            if gt(dom[1], K0) is not K1:
                break
            inst = lnot(subst(g, {b: K0}))
            w = land(e, restrict(restrict(w, e), inst))
            v = lnot(w) if flip else w
            if v.op != "d":
                return v
    if 2 <= len(qs) <= 6:
        for b1, d1, g1, e1 in qs:
            for b2, d2, g2, e2 in qs:
                if e1 is e2 or d1 != d2 or v.op != "d" or land(subst(g1, {b1: b2}), lnot(g2)) is not K0:
                    continue
                s1, s2 = lnot(e1), lnot(e2)
                w = lor(land(s1, restrict(restrict(v, s2), s1)), land(e1, restrict(v, e1)))
                if (e2.a[0], e2.a[1][0]) not in tests_of(w):
                    v = w
    return v


def by_rank(t, i, dom, g):
    """t where g holds for i: elements of dom satisfying g are ordered as their ranks among such elements."""
    def rank_at(x):
        b = fresh(("R", x))
        return Sum(b, ("R", x), subst(g, {i: b}))
    ri = rank_at(i)

    def hook(x):
        if x.op != "sum" or len(x.a[0]) != 1 or i not in x.fv:
            return None
        (b,), (d,), mono, lits = opened(x)
        if d != dom:
            return None
        diff = sub(rank_at(b), ri)
        back = neg(diff)
        if not any(q is diff or q is back for q, _ in lits):
            return None
        ctx = K1
        for q, c in lits:
            ctx = land(ctx, lit(q, c))
        if land(ctx, lnot(subst(g, {i: b}))) is not K0:
            return None
        body = K1
        for y in mono:
            body = mul(body, y)
        for q, c in lits:
            if q is diff and c in ((0, 0), (-1, 0)):
                body = mul(body, gt(sub(b, i), K0) if c[0] == 0 else ge(sub(b, i), K0))
            elif q is back and c in ((0, 0), (-1, 0)):
                body = mul(body, gt(sub(i, b), K0) if c[0] == 0 else ge(sub(i, b), K0))
            else:
                body = mul(body, lit(q, c))
        return Sum(b, dom, body)
    return rewrite(t, hook)


def tests_of(v, limit=40):
    seen, st, out = set(), [v], []
    while st and len(out) <= limit:
        t = st.pop()
        if t.op != "d" or t in seen:
            continue
        seen.add(t)
        for c in t.a[1]:
            if (t.a[0], c) not in out:
                out.append((t.a[0], c))
        st.extend(t.a[2])
    return out


def witnessed(v, bs, g):
    """v where g holds for the elements bs: what g says of them answers whether there is such an element."""
    if v.op != "d" or g is K1:
        return v
    ws = [(b, d) for b, d in bs if isinstance(d, tuple) and d[0] in ("R", "M")]
    if not ws:
        return v
    for q, c in tests_of(v):
        z = quantified(q, c)
        if z is None:
            continue
        b0, dom, h, holds = z
        for b, d in ws:
            if d[0] == "M":
                continue
            if d != dom or b is b0:
                continue
            if land(g, lnot(subst(h, {b0: b}))) is K0:
                e = mk("d", q, (c,), (K0, K1) if holds else (K1, K0))
                v = restrict(v, e)
                break
        if v.op != "d":
            break
    return v


def Forall(b, dom, g):
    return lnot(Exists(b, dom, lnot(g)))


def First(b, dom, g):
    """Index of the first element of the domain satisfying g."""
    base = g.ht
    for x in dom:
        if isinstance(x, T):
            base = max(base, x.ht)
    hm = {b: mk("B", base + 1)}
    return mk("first", base + 1, tuple(_close_sub(x, hm) if isinstance(x, T) else x for x in dom), _close_sub(g, hm))


# ---------------------------------------------------------------- recurrences
def Fold(b, dom, s, comps, k, args):
    """State component k, at args, after the rounds b in dom.

    comps: [(formals, initial value, value after round b, type)]; reads of component j before round b are the
    terms F("st", s, j, type, *args)."""
    if dom[0] == "R" and dom[1] is K0:
        return subst(comps[k][1], dict(zip(comps[k][0], args)))
    # the components needed, numbered by structure
    def reads(t):
        return {x.a[2] for x in subterms(t) if x.op == "f" and x.a[0] == "st" and x.a[1] is s}
    need, todo = [k], [k]
    while todo:
        for j in reads(comps[todo.pop()][2]):
            if j not in need:
                need.append(j)
                todo.append(j)
    colour = {j: _hash((len(comps[j][0]), comps[j][1].sk, int(j == k))) for j in need}
    for _ in range(min(len(need), 6) if len(need) > 1 else 0):
        colour = {j: _hash((colour[j], _chash(comps[j][2], s, colour))) for j in need}
    order = [k] + sorted((j for j in need if j != k), key=lambda j: colour[j])
    at = {j: i for i, j in enumerate(order)}

    def renum(t):
        def hook(x):
            if x.op == "f" and x.a[0] == "st" and x.a[1] is s:
                return F("st", s, at[x.a[2]], x.a[3], *[renum(y) for y in x.a[4:]])
            return None
        return rewrite(t, hook, {s})
    if order != list(range(len(comps))):
        comps = [(comps[j][0], comps[j][1], renum(comps[j][2]), comps[j][3]) for j in order]
    fs, init, step, ty = comps[0]
    own = F("st", s, 0, ty, *fs)
    if step is own:
        return subst(init, dict(zip(fs, args)))
    nf = max(len(c[0]) for c in comps)
    base = max([x.ht for c in comps for x in c[1:3]] + [x.ht for x in dom if isinstance(x, T)] + [0])
    B = [mk("B", base + 1 + i) for i in range(2 + nf)]
    sys = []
    for fs, init, step, ty in comps:
        hm = dict(zip(fs, B[2:]))
        h2 = dict(hm)
        h2[b], h2[s] = B[0], B[1]
        sys.append((len(fs), _close_sub(init, hm), _close_sub(step, h2), ty))
    r = mk("fold", tuple(base + 1 + i for i in range(2 + nf)), dom, tuple(sys), tuple(args))
    return atom(r) if sys[0][3] == BOOL else r


def _chash(t, s, colour, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if s not in t.fv:
        r = t.sk
    elif t.op == "f" and t.a[0] == "st" and t.a[1] is s:
        r = _hash(("st", colour[t.a[2]]) + tuple(_chash(x, s, colour, memo) for x in t.a[4:]))
    else:
        def go(x):
            if isinstance(x, T):
                return _chash(x, s, colour, memo)
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if t.op == "p":
            r = sum(_hash((sum(go(x) * 13 for x in m), c)) for m, c in t.a[0]) * 101 & 0xffffffffffff
        elif t.op == "sum":
            r = _hash((t.op, len(t.a[0]), go(t.a[1]))) + sum(_hash(go(x)) * 31 for x in t.a[2]) + sum(_hash(go(x)) * 57 for x in t.a[3])
        elif t.op == "first":
            r = _hash(("first",) + go(t.a[1:]))
        elif t.op == "f" and t.a[0] == "eq":
            r = go(t.a[1]) + go(t.a[2]) + 71
        else:
            r = _hash((t.op,) + go(t.a))
    memo[t] = r
    return r


def open_fold(t):
    """(b, dom, s, comps, args) with fresh open binders."""
    hs, dom, sys, args = t.a
    bs = [fresh(None) for _ in hs]
    BD[bs[0]] = dom
    hm = dict(zip(hs, bs))
    comps = [(tuple(bs[2:2 + n]), reopen(i, hm), reopen(st, hm), ty) for n, i, st, ty in sys]
    return bs[0], dom, bs[1], comps, args


def refold(t, go):
    b, dom, s, comps, args = open_fold(t)
    dom = tuple(go(x) if isinstance(x, T) else x for x in dom)
    BD[b] = dom
    return Fold(b, dom, s, [(fs, go(i), go(st), ty) for fs, i, st, ty in comps], 0, [go(x) for x in args])


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 12:
        return "..."
    o = t.op
    if o == "k":
        v = t.a[0]
        return repr(v[1:]) if isinstance(v, str) else str(v)
    if o == "s":
        return t.a[0]
    if o == "b":
        return "%s%d" % (t.a[1], t.a[0])
    if o == "B":
        return "#%d" % t.a[0]
    if o == "p":
        out = []
        for m, c in t.a[0]:
            s = "*".join(show(x, depth + 1) for x in m)
            if not s:
                s = str(c)
            elif c != 1:
                s = ("-" if c == -1 else "%s*" % c) + s
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if o == "d":
        q, cuts, ch = t.a
        if len(cuts) == 1 and ch == (K0, K1):
            return "[%s>%s]" % (show(q, depth + 1), _showcut(cuts[0]))
        if len(cuts) == 1 and ch == (K1, K0):
            return "[%s<=%s]" % (show(q, depth + 1), _showcut(cuts[0]))
        s = "{" + show(q, depth + 1)
        for c, h in zip(cuts, ch):
            s += " <=%s: %s;" % (_showcut(c), show(h, depth + 1))
        return s + " else %s}" % show(ch[-1], depth + 1)
    if o == "f":
        n = t.a[0]
        xs = [show(x, depth + 1) if isinstance(x, T) else str(x) for x in t.a[1:]]
        if n == "sel":
            return "%s[%s]" % (xs[0], xs[1])
        if n == "attr":
            return "%s.%s" % (xs[0], xs[1])
        if n == "ref":
            return "@%s" % xs[0] + ("(%s)" % ",".join(xs[1:]) if len(xs) > 1 else "")
        return "%s(%s)" % (n, ", ".join(xs))
    if o == "sum":
        hs, doms, mono, lits = t.a
        return "Sum{%s | %s} %s" % (
            ", ".join("#%d in %s" % (h, _showdom(d, depth)) for h, d in zip(hs, doms)),
            " & ".join("%s>%s" % (show(q, depth + 1), _showcut(c)) for q, c in lits) or "true",
            "*".join(show(x, depth + 1) for x in mono) or "1")
    if o == "first":
        return "first{#%d in %s | %s}" % (t.a[0], _showdom(t.a[1], depth), show(t.a[2], depth + 1))
    if o == "fold":
        return "fold{%s | %s}(%s)" % (_showdom(t.a[1], depth), "; ".join(
            "%s -> %s" % (show(i, depth + 1), show(st, depth + 1)) for _, i, st, _ in t.a[2]), ", ".join(show(x, depth + 1) for x in t.a[3]))
    return "?"


def _showcut(c):
    return "%s%s" % (c[0], "" if c[1] == 0 else "-")


def _showdom(d, depth):
    return ("0..%s" if d[0] == "R" else "%s") % show(d[1], depth + 1)


# ---------------------------------------------------------------- linear infeasibility
def _fm(rows):
    """rows: [{mono: coef}] each meaning sum <= 0; True when they contradict each other over the rationals."""
    rows = [dict(r) for r in rows]
    while True:
        nxt = []
        for r in rows:
            if all(m == () for m in r):
                if r.get((), 0) > 0:
                    return True
            else:
                nxt.append(r)
        rows = nxt
        if not rows:
            return False
        ms = {}
        for r in rows:
            for m, c in r.items():
                if m != ():
                    a = ms.setdefault(m, [0, 0])
                    a[c > 0] += 1
        m = min(ms, key=lambda m: ms[m][0] * ms[m][1])
        pos = [r for r in rows if r.get(m, 0) > 0]
        neg_ = [r for r in rows if r.get(m, 0) < 0]
        rows = [r for r in rows if not r.get(m)]
        if len(pos) * len(neg_) + len(rows) > 400:
            return False
        for a in pos:
            for b in neg_:
                r = {}
                for x, c in a.items():
                    r[x] = r.get(x, 0) + c / Fraction(a[m])
                for x, c in b.items():
                    r[x] = r.get(x, 0) - c / Fraction(b[m])
                rows.append({x: c for x, c in r.items() if c})


def infeasible(g, limit=64):
    """True when no values of the integer terms satisfy g (linear reasoning along every path)."""
    if g is K0:
        return True
    paths = []

    def go(t, acc):
        if len(paths) > limit:
            return
        if t is K0:
            return
        if t.op != "d":
            paths.append(acc)
            return
        q, cuts, ch = t.a
        for n, c in enumerate(ch):
            a = list(acc)
            if isinstance(q, T) and isint(q):
                if n > 0:
                    a.append(sub(K(int(_icut(cuts[n - 1])[0]) + 1), q))
                if n < len(cuts):
                    a.append(sub(q, K(int(_icut(cuts[n])[0]))))
            go(c, a)
    go(g, [])
    if len(paths) > limit:
        return False
    for acc in paths:
        rows = [terms(x) for x in acc]
        seen = set()
        for r in list(rows):
            for m in r:
                if m != () and m not in seen:
                    seen.add(m)
                    t = poly({m: 1})
                    lo, hi = rng(t)
                    d = BD.get(t) if t.op == "b" else None
                    if lo is not None and isinstance(lo, (int, Fraction)):
                        rows.append({m: -1, (): lo})
                    if hi is not None and isinstance(hi, (int, Fraction)):
                        rows.append({m: 1, (): -hi})
                    if d is not None and d[0] == "R":
                        rows.append(terms(sub(add(t, K1), d[1])) if d[1].op != "d" else {})
        if not _fm(rows):
            return False
    return True
