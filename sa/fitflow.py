"""Typestate dataflow for ColGenClassifier.fit.

A forward dataflow over the structured syntax tree whose facts are *sets of
abstract states* (property simulation: typestate plus the few correlated value
facts the typestate depends on).  Helper methods, nested functions and
generators are analysed in their caller's context.  Loops are iterated to a
fixpoint over a finite domain; data are never enumerated.

The abstract state keeps
  * tags for the objects the protocol is about (current / outdated duals,
    validated X, encoded y, level / subproblem elements and indices,
    generated column lists, clock readings, per-subproblem statistics);
  * integers as relations "value = N + c" with the ghost counters N (restricted
    master solves), M (reported improvements), A (columns accepted from the
    list being offered);
  * ghost typestate of the protocol.
"""
import ast
from . import source
from .live import Live

TOP = ("top",)
NONE = ("c", None)
TRUE = ("c", True)
FALSE = ("c", False)
FREE = ("free",)         # some value of the data or of the environment, unrelated to the protocol
CAP = 3
SLOW = ("solve", "gen", "upd")


class GiveUp(Exception):
    def __init__(self, msg, node=None):
        self.msg, self.node = msg, node
        super().__init__(msg)


def C(v):
    return ("c", v)


class St:
    """Immutable-by-convention abstract state."""
    __slots__ = ("env", "attrs", "heap", "g", "_h")

    def __init__(self, env, attrs, heap, g):
        self.env, self.attrs, self.heap, self.g = env, attrs, heap, g
        self._h = None

    def copy(self):
        return St(dict(self.env), dict(self.attrs), dict(self.heap), dict(self.g))

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.env.items()), frozenset(self.attrs.items()),
                       frozenset(self.heap.items()), frozenset(self.g.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()


STATS = {"performed_iter_", "num_improving_iter_", "mp_optimal_", "num_col_added_sp_",
         "time_spent_sp_", "time_spent_master_", "time_add_col_", "time_limit_reached_"}
PARAMS = ["max_iterations", "time_limit", "master_problem", "subproblems", "rmp_is_ip",
          "rmp_solver_params", "master_ip_solver_params", "subproblem_params"]


class FitFlow:
    def __init__(self, prog, clsname="ColGenClassifier"):
        self.prog = prog
        self.cls = prog.cls(clsname)
        self.fit = prog.need_method(clsname, "fit")
        self.viol = {}       # (prop, msg) -> node line
        self.und = {}        # msg -> line
        self.stats = dict(states=0, transitions=0, contexts=0, loops=0, calls=0, events={})
        self.depth = 0
        self.nfid = 0
        self.yield_stack = []
        self.livemap = {}
        self.loopsz = {}
        self.memo = {}
        self.fuzzy = False
        self.encs = None
        self.opscache = {}

    def vague(self, v):
        return v[0] in ("top", "free")

    PROTO = ("self", "mp", "levels", "lv", "sp", "cols", "col", "meth", "mpattr", "spattr", "clo", "fn", "flat",
             "enum", "zip", "rev", "part", "superm", "encattr", "statlv", "statroot", "resetflag", "added")

    def holds(self, v):
        """does the value give access to a protocol object?"""
        if not isinstance(v, tuple) or not v:
            return False
        if v[0] in self.PROTO:
            return True
        return v[0] == "tup" and any(self.holds(x) for x in v[1])

    def isfuzzy(self, v):
        return v[0] == "top" or (v[0] == "unk" and not self.vague(v[1])) or v[0] in ("holder",)

    def blur(self, s, why, node):
        """from here on facts may be missing: nothing is reported as a violation"""
        self.unsure(why, node)
        s.g["fuzzy"] = True
        self.fuzzy = True

    # ------------------------------------------------------------ reporting
    def bad(self, prop, msg, node=None):
        if self.fuzzy:
            self.und.setdefault((prop, "not decided: " + msg), (self.cur_mod.path, getattr(node, "lineno", 0)))
            return
        self.viol.setdefault((prop, msg), (self.cur_mod.path, getattr(node, "lineno", 0)))

    def unsure(self, msg, node=None, props=("C01", "C02", "C03", "C04", "C05", "C06", "C07")):
        for p in props:
            self.und.setdefault((p, msg), (self.cur_mod.path, getattr(node, "lineno", 0)))

    def event(self, name):
        self.stats["events"][name] = self.stats["events"].get(name, 0) + 1

    # ------------------------------------------------------------ driver
    def contexts(self):
        for maxit in ("np", "pos"):
            for tl in ("np", "pos"):
                for ip in (True, False):
                    for k in (1, 2, 3):
                        yield maxit, tl, ip, k

    def run(self, jobs=8):
        import multiprocessing
        ctxs = list(self.contexts())
        if jobs > 1:
            with multiprocessing.get_context("fork").Pool(jobs) as pool:
                res = pool.map(self.job, ctxs, chunksize=1)
        else:
            res = [self.job(c) for c in ctxs]
        first = None
        for viol, und, stats, encs, err in res:
            if err and first is None:
                first = err
            for k, v in viol.items():
                self.viol.setdefault(k, v)
            for k, v in und.items():
                self.und.setdefault(k, v)
            for k, v in stats.items():
                if k == "events":
                    for n, c in v.items():
                        self.stats["events"][n] = self.stats["events"].get(n, 0) + c
                else:
                    self.stats[k] += v
            if encs is not None:
                self.encs = encs if self.encs is None else self.encs & encs
        self.stats["contexts"] = len(ctxs)
        if first:
            if first[0] == "broken":
                raise source.Broken(first[1])
            raise GiveUp(first[1])
        return self

    def job(self, ctx):
        f = FitFlow(self.prog, self.cls.name)
        f.cur_mod, f.cur_cls, f.ctx = f.fit.mod, f.fit.cls, ctx
        err = None
        try:
            f.one()
        except GiveUp as e:
            err = ("giveup", "%s (line %s)" % (e.msg, getattr(e.node, "lineno", "?")))
        except source.Broken as e:
            err = ("broken", str(e))
        except RecursionError:
            err = ("giveup", "recursion too deep")
        return f.viol, f.und, f.stats, f.encs, err

    def one(self):
        maxit, tl, ip, k = self.ctx
        g = dict(N=0, M=0, A=0, lo=None, hi=(-1 if maxit == "pos" else None), validated=False,
                 built=0, duals=0, upd="none", ask="none", acc=False, chk=None, pend=None,
                 kc=0, kd=0, imp=None, ip=0, ipres=None, fitted=False, loops=(), reset=False,
                 solved=False, fuzzy=False, enc=None, encbad=None, lvne=None, slot=None, started=False, onchk=0)
        attrs = {"max_iterations": ("maxit",), "time_limit": ("tlim",), "master_problem": ("mp",),
                 "subproblems": ("levels",), "rmp_is_ip": C(ip), "rmp_solver_params": ("prm", "rmp"),
                 "master_ip_solver_params": ("prm", "ip"), "subproblem_params": ("plevels",)}
        for s in STATS | {"iter_", "is_fitted_"}:
            attrs[s] = ("stale", s)
        st = St({}, attrs, {}, g)
        args = [a.arg for a in self.fit.node.args.args]
        if len(args) < 3:
            raise source.Broken("fit does not take (self, X, y)")
        fid = self.newfid()
        st.env[(fid, args[0])] = ("self",)
        st.env[(fid, args[1])] = ("Xraw",)
        st.env[(fid, args[2])] = ("yraw",)
        self.cap = 0
        self.learn(self.fit.node)
        outs = self.block(self.fit.node.body, [st], fid)
        self.stats["states"] += len(outs)
        for kind, s, p in outs:
            self.fuzzy = s.g["fuzzy"]
            if kind == "next":
                self.at_return(s, NONE, self.fit.node)
            elif kind == "ret":
                self.at_return(s, p[0], p[1])
            elif kind == "raise":
                self.at_raise(s, p)

    def newfid(self):
        self.nfid = self.depth
        return self.depth

    # ------------------------------------------------------------ exits
    def at_raise(self, s, p):
        maxit, tl, ip, k = self.ctx
        exc, node = p
        if k == 1:
            if exc not in ("ValueError", "UserError"):
                self.bad("C05", "a single class is not reported with a ValueError", node)
            if s.g["built"]:
                self.bad("C05", "the master is built before single-class targets are rejected", node)
            return
        if s.g["ip"] == 1 and s.g["ipres"] in (False, None) and s.g["ipres"] is not True:
            return
        self.bad("C05", "training ends with an error (%s) although nothing failed" % exc, node)

    def at_return(self, s, val, node):
        maxit, tl, ip, k = self.ctx
        g = s.g
        self.event("return")
        if k == 1:
            self.bad("C05", "single-class targets are accepted", node)
            return
        if not g["validated"]:
            self.bad("C05", "training finishes without validating the input", node)
        if val != ("self",):
            self.bad("C05", "training does not return the estimator itself", node)
        self.end_checks(s, node)
        if ip and g["ip"] == 0:
            self.bad("C05", "the integer master is not solved although the classifier asks for it", node)
        if ip and g["ip"] == 1 and g["ipres"] is not True:
            self.bad("C05", "an unsolved integer master is accepted", node)
        f = s.attrs.get("is_fitted_")
        if f != TRUE:
            if f is not None and f[0] == "c" and f[1]:
                pass
            else:
                self.bad("C05", "the estimator is not marked fitted", node)
        # C06: the encoder that produced the training labels stays available for decoding
        if g["enc"] is not None:
            names = sorted(a for a, v in s.attrs.items() if v == ("enc", g["enc"]))
            self.encs = set(names) if self.encs is None else self.encs & set(names)
            other = [a for a, v in s.attrs.items() if v[0] == "enc" and v != ("enc", g["enc"])]
            if not names:
                if any(v[0] == "top" for v in s.attrs.values()):
                    self.unsure("where the label encoder is kept is not understood", node, ("C06",))
                else:
                    self.bad("C06", "the encoder that produced the training labels is not kept"
                             + (" (%s holds another one)" % other[0] if other else ""), node)
            if g["encbad"] == g["enc"]:
                self.bad("C06", "the label encoder is fitted again on something else than the targets", node)
        # C01
        opt = self.g_opt(s)
        v = s.attrs.get("mp_optimal_")
        if v not in (TRUE, FALSE):
            if v and self.vague(v):
                self.unsure("value of mp_optimal_ not understood", node, ("C01",))
            else:
                self.bad("C01", "mp_optimal_ is not a definite boolean at the end of training", node)
        elif v == TRUE and not opt:
            self.bad("C01", "mp_optimal_ is true although the final iteration did not ask every subproblem in vain"
                     + (" (stopped by the time limit)" if g["chk"] == "over" else
                        " (columns were accepted)" if g["acc"] else ""), node)
        elif v == FALSE and opt:
            self.bad("C01", "mp_optimal_ is false although the final iteration asked every subproblem in vain", node)
        v = s.attrs.get("time_limit_reached_")
        over = g["chk"] == "over" and tl == "pos"
        if v not in (TRUE, FALSE):
            if v and self.vague(v):
                self.unsure("value of time_limit_reached_ not understood", node, ("C01",))
            else:
                self.bad("C01", "time_limit_reached_ is not a definite boolean at the end of training", node)
        elif v == TRUE and not over:
            self.bad("C01", "time_limit_reached_ is true although the time limit did not stop the pricing", node)
        elif v == FALSE and over and not opt:
            self.bad("C01", "time_limit_reached_ is false although the time limit stopped the pricing", node)
        # C07
        for a, base, what in (("performed_iter_", "N", "restricted-master solves"),
                              ("iter_", "N", "restricted-master solves"),
                              ("num_improving_iter_", "M", "reported improvements")):
            v = s.attrs.get(a)
            if not self.is_rep(v, base, s):
                if v and self.vague(v):
                    self.unsure("value of %s not understood" % a, node, ("C07",))
                else:
                    self.bad("C07", "%s does not equal the number of %s" % (a, what), node)
        for a in STATS:
            v = s.attrs.get(a)
            if v is None or v[0] == "stale":
                self.bad("C07", "%s is not re-initialised by training" % a, node)
        for a in ("num_col_added_sp_", "time_spent_sp_"):
            v = s.attrs.get(a)
            if v is None or v[0] == "stale":
                continue
            if v[0] == "ref":
                v = s.heap.get(v[1])
            if v is not None and self.vague(v):
                self.unsure("shape of %s not understood" % a, node, ("C07",))
            elif not (v and v[0] == "L" and self.has_len(v[1], "levels") and v[2] in ("perlevel", "empty")):
                self.bad("C07", "%s does not have one entry per subproblem of each level" % a, node)
        if g["imp"] is None and g["N"] != 0:
            self.bad("C07", "an iteration does not ask the master whether it improved", node)
        for a in ("time_spent_master_", "time_add_col_"):
            v = s.attrs.get(a)
            if v and v[0] not in ("stale", "total", "top"):
                self.bad("C07", "%s is not a total of measured durations" % a, node)

    def g_opt(self, s):
        g = s.g
        return g["ask"] == "all" and not g["acc"] and g["solved"]

    def end_checks(self, s, node):
        """Obligations at the end of the pricing loop (integer solve or return)."""
        maxit, tl, ip, k = self.ctx
        g = s.g
        self.col_checks(s, node)
        if not g["solved"]:
            self.bad("C05", "training ends without solving a restricted master", node)
        if self.g_opt(s):
            return
        if g["chk"] == "over" and tl == "pos":
            return
        if maxit == "pos":
            if g["lo"] is None or g["lo"] < 0:
                self.bad("C04", "training stops before the iteration limit is used up although columns were "
                         "accepted or a subproblem was not asked", node)
        else:
            self.bad("C04", "training stops without a limit although columns were accepted or a subproblem "
                     "was not asked", node)

    def col_checks(self, s, node):
        g = s.g
        if g["pend"] is not None:
            self.bad("C03", "generated columns are not offered to the master", node)
            g["pend"] = None
        if g["kd"] is None and g["kc"] is None:
            self.bad("C03", "the per-subproblem column counter does not follow the accepted columns", node)
        elif g["kd"] != 0:
            self.bad("C03", "the per-subproblem column counter differs from the number of accepted columns", node)
        g["kc"], g["kd"], g["A"] = 0, 0, 0

    # ------------------------------------------------------------ integers
    def mkint(self, s, v):
        reps = []
        for b in ("N", "M", "A"):
            if s.g[b] is not None and b != "A":
                if abs(v - s.g[b]) <= CAP:
                    reps.append((b, v - s.g[b]))
            elif b == "A" and s.g["A"] is not None and abs(v - s.g["A"]) <= CAP:
                reps.append((b, v - s.g["A"]))
        return ("i", v if abs(v) <= CAP else None, tuple(reps))

    def toint(self, s, v):
        if v[0] == "i":
            return v
        if v[0] == "c" and isinstance(v[1], (int, float)) and not isinstance(v[1], bool) and v[1] == int(v[1]):
            return self.mkint(s, int(v[1]))
        if v[0] == "c" and isinstance(v[1], bool):
            return self.mkint(s, int(v[1]))
        return None

    def is_rep(self, v, base, s):
        if v is None:
            return False
        i = self.toint(s, v)
        if i is None:
            return False
        if (base, 0) in i[2]:
            return True
        return i[1] is not None and s.g[base] == i[1]

    def addint(self, a, k):
        return ("i", a[1] + k if a[1] is not None and abs(a[1] + k) <= CAP else None,
                tuple((b, c + k) for b, c in a[2] if abs(c + k) <= CAP))

    def has_len(self, lenv, what):
        return lenv[0] == "i" and (("len:" + what, 0) in lenv[2])

    def bump(self, s, base, reset=False):
        """ghost counter += 1 (values relative to it shift)."""
        for d in (s.env, s.attrs, s.heap):
            for k in list(d):
                d[k] = self.shift(d[k], base)
        if s.g[base] is not None:
            s.g[base] = s.g[base] + 1 if s.g[base] < (CAP if base == "A" else 1) else None

    def shift(self, v, base):
        if v[0] == "i" and v[2]:
            return ("i", v[1], tuple((b, c - 1 if b == base else c) for b, c in v[2]
                                     if b != base or abs(c - 1) <= CAP))
        if v[0] == "L" and v[1][0] == "i":
            return ("L", self.shift(v[1], base)) + v[2:]
        if v[0] == "tup":
            return ("tup", tuple(self.shift(x, base) for x in v[1]))
        return v

    def drop_base(self, s, base):
        for d in (s.env, s.attrs, s.heap):
            for k in list(d):
                d[k] = self.dropv(d[k], base)

    def dropv(self, v, base):
        if v[0] == "i":
            return ("i", v[1], tuple((b, c) for b, c in v[2] if b != base))
        if v[0] == "L" and v[1][0] == "i":
            return ("L", self.dropv(v[1], base)) + v[2:]
        if v[0] == "tup":
            return ("tup", tuple(self.dropv(x, base) for x in v[1]))
        return v

    # ------------------------------------------------------------ time
    def tick(self, s, ev):
        """An event separates clock readings."""
        def f(v):
            if v[0] == "clk":
                return ("clk", v[1], v[2] | {ev})
            if v[0] == "el":
                return ("el", v[1] | {ev})
            if v[0] == "tup":
                return ("tup", tuple(f(x) for x in v[1]))
            return v
        for d in (s.env, s.attrs, s.heap):
            for k in list(d):
                d[k] = f(d[k])

    def invalidate(self, s, tag):
        def has(v):
            return isinstance(v, tuple) and (v == tag or any(has(x) for x in v))

        def has_t(v):
            if isinstance(v, tuple):
                return any(has_t(x) for x in v)
            return v == tag
        for d in (s.env, s.attrs, s.heap):
            for k in list(d):
                if has_t(d[k]):
                    if d[k][0] == "dur":
                        d[k] = ("dur", frozenset(["old"]))
                    elif d[k][0] == "clk":
                        d[k] = ("clk", d[k][1], frozenset(x if not has_t(x) else "old" for x in d[k][2]))
                    else:
                        d[k] = TOP
        # frozensets inside clocks
        for d in (s.env, s.attrs, s.heap):
            for k in list(d):
                v = d[k]
                if v[0] == "clk" and any(has_t(x) for x in v[2]):
                    d[k] = ("clk", v[1], frozenset("old" if has_t(x) else x for x in v[2]))
                elif v[0] == "dur" and any(has_t(x) for x in v[1]):
                    d[k] = ("dur", frozenset("old" if has_t(x) else x for x in v[1]))

    # ------------------------------------------------------------ statements
    def block(self, stmts, states, fid):
        """returns list of (kind, state, payload)"""
        cur = list(dict.fromkeys(states))
        done = []
        for st in stmts:
            nxt = []
            lv = self.live_after(st)
            for s in cur:
                for kind, s2, p in self.stmt(st, s, fid):
                    if kind == "next":
                        nxt.append(self.prune(s2, lv, fid, False))
                    else:
                        done.append((kind, s2, p))
            cur = list(dict.fromkeys(nxt))
            if len(cur) > 8:
                cur = [x for _, x, _ in self.squash([("next", x, None) for x in cur])]
            self.cap += len(cur)
            self.stats["transitions"] += len(cur)
            if self.cap > 400000:
                raise GiveUp("too many abstract states", st)
            if not cur:
                break
        return [("next", s, None) for s in cur] + list(dict.fromkeys(done))

    def live_after(self, st):
        r = self.livemap.get(id(st))
        return r[0].after.get(id(st)) | r[0].always if r and id(st) in r[0].after else None

    def live_head(self, st):
        r = self.livemap.get(id(st))
        return r[0].head.get(id(st)) | r[0].always if r and id(st) in r[0].head else None

    def learn(self, fn):
        if id(fn) in self.livemap:
            return
        lv = Live(fn)
        self.livemap[id(fn)] = (lv, fn)
        for k in list(lv.after) + list(lv.head):
            self.livemap[k] = (lv, fn)

    def prune(self, s, lv, fid, gc=True):
        """forget dead locals of this frame and unreachable cells"""
        if lv is None:
            return s
        dead = [k for k in s.env if k[0] == fid and k[1] not in lv]
        if dead or (gc and s.heap):
            s = s.copy()
        for k in dead:
            del s.env[k]
        if gc and s.heap:
            reach = set()

            def scan(v):
                if isinstance(v, tuple):
                    if len(v) == 2 and v[0] == "ref":
                        if v[1] not in reach:
                            reach.add(v[1])
                            scan(s.heap.get(v[1], ()))
                    else:
                        for x in v:
                            scan(x)
            for d in (s.env, s.attrs):
                for v in d.values():
                    scan(v)
            for k in [k for k in s.heap if k not in reach]:
                del s.heap[k]
        return s

    # states that agree on everything but counters are joined at loop heads:
    # a counter keeps only the relations that hold in both
    def mask(self, v):
        if isinstance(v, tuple) and v:
            if v[0] == "i":
                return ("i",)
            if v[0] == "c" and isinstance(v[1], int) and not isinstance(v[1], bool):
                return ("i",)
            if v[0] == "clk" and v[1] == "start":
                return ("clk", "start")
            if v[0] == "L":
                return ("L",)
            if v[0] == "tup":
                return ("tup", tuple(self.mask(x) for x in v[1]))
        return v

    def jkey(self, s):
        g = dict(s.g)
        for k in ("N", "M", "A", "kc", "kd"):
            g[k] = None
        g["kz"] = (s.g["kc"] is None, s.g["kd"], s.g["A"] == 0)
        m = lambda d: frozenset((k, self.mask(v)) for k, v in d.items())
        return (m(s.env), m(s.attrs), m(s.heap), frozenset(g.items()))

    def jval(self, a, b, sa, sb):
        if a == b:
            return a
        if a[0] in ("i", "c") and b[0] in ("i", "c"):
            x, y = self.toint(sa, a), self.toint(sb, b)
            if x is None or y is None:
                return TOP
            return ("i", x[1] if x[1] == y[1] else None, tuple(r for r in x[2] if r in y[2]))
        if a[0] == "clk" and b[0] == "clk":
            return ("clk", a[1], a[2] | b[2])
        if a[0] == "L" and b[0] == "L":
            kd = a[2] if a[2] == b[2] or b[2] == "empty" else b[2] if a[2] == "empty" else "mixed"
            return ("L", self.jval(a[1], b[1], sa, sb), kd)
        if a[0] == "tup" and b[0] == "tup":
            return ("tup", tuple(self.jval(x, y, sa, sb) for x, y in zip(a[1], b[1])))
        return TOP

    def join(self, a, b):
        r = a.copy()
        for d, da, db in ((r.env, a.env, b.env), (r.attrs, a.attrs, b.attrs), (r.heap, a.heap, b.heap)):
            for k in d:
                d[k] = self.jval(da[k], db[k], a, b)
        for k in ("N", "M", "A", "kc", "kd"):
            if a.g[k] != b.g[k]:
                r.g[k] = None
        return r

    def arrive(self, table, s, dirty):
        """join s into the table of loop-head states"""
        k = self.jkey(s)
        old = table.get(k)
        if old is None:
            table[k] = s
        elif old == s:
            return
        else:
            j = self.join(old, s)
            if j == old:
                return
            table[k] = j
        dirty[k] = True

    def stmt(self, n, s0, fid):
        s = s0.copy()
        self.fuzzy = s.g["fuzzy"]
        t = type(n)
        if t is ast.Expr:
            if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                return self.do_yield(n.value, s, fid)
            return [self.nx(x) for x in self.ev(n.value, s, fid)]
        if t in (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal):
            return [("next", s, None)]
        if t is ast.Assign:
            out = []
            for v, s1 in self.ev(n.value, s, fid):
                if self.is_raise(v):
                    out.append(self.nx((v, s1)))
                    continue
                for tg in n.targets:
                    s1 = self.assign(tg, v, s1, fid)
                out.append(("next", s1, None))
            return out
        if t is ast.AnnAssign:
            if n.value is None:
                return [("next", s, None)]
            out = []
            for v, s1 in self.ev(n.value, s, fid):
                if self.is_raise(v):
                    out.append(self.nx((v, s1)))
                    continue
                out.append(("next", self.assign(n.target, v, s1, fid), None))
            return out
        if t is ast.AugAssign:
            return self.augassign(n, s, fid)
        if t is ast.If:
            out = []
            for b, s1 in self.cond(n.test, s, fid):
                if self.is_raise(b):
                    out.append(self.nx((b, s1)))
                    continue
                out += self.block(n.body if b else n.orelse, [s1], fid)
            return out
        if t is ast.While:
            return self.loop_while(n, s, fid)
        if t is ast.For:
            return self.loop_for(n, s, fid)
        if t is ast.Break:
            return [("brk", s, None)]
        if t is ast.Continue:
            return [("cont", s, None)]
        if t is ast.Return:
            if n.value is None:
                return [("ret", s, (NONE, n))]
            out = []
            for v, s1 in self.ev(n.value, s, fid):
                if self.is_raise(v):
                    out.append(self.nx((v, s1)))
                else:
                    out.append(("ret", s1, (v, n)))
            return out
        if t is ast.Raise:
            nm = "Exception"
            e = n.exc
            if isinstance(e, ast.Call):
                e = e.func
            if isinstance(e, ast.Name):
                nm = e.id
            return [("raise", s, (nm, n))]
        if t is ast.Assert:
            out = []
            for b, s1 in self.cond(n.test, s, fid):
                if self.is_raise(b):
                    out.append(self.nx((b, s1)))
                elif b:
                    out.append(("next", s1, None))
                else:
                    out.append(("raise", s1, ("AssertionError", n)))
            return out
        if t is ast.Try:
            out = []
            res = self.block(n.body, [s], fid)
            for kind, s1, p in res:
                if kind == "raise" and n.handlers:
                    h = n.handlers[0]
                    if h.name:
                        s1 = s1.copy()
                        s1.env[(fid, h.name)] = TOP
                    out += self.block(h.body, [s1], fid)
                elif kind == "next" and n.orelse:
                    out += self.block(n.orelse, [s1], fid)
                else:
                    out.append((kind, s1, p))
            if n.finalbody:
                o2 = []
                for kind, s1, p in out:
                    for k2, s2, p2 in self.block(n.finalbody, [s1], fid):
                        o2.append((kind, s2, p) if k2 == "next" else (k2, s2, p2))
                out = o2
            return out
        if t is ast.With:
            cur = [s]
            for it in n.items:
                nxt = []
                for x in cur:
                    for v, s1 in self.ev(it.context_expr, x, fid):
                        if it.optional_vars is not None:
                            s1 = self.assign(it.optional_vars, TOP, s1, fid)
                        nxt.append(s1)
                cur = nxt
            return self.block(n.body, cur, fid)
        if t is ast.FunctionDef:
            s.env[(fid, n.name)] = ("clo", n, fid)
            return [("next", s, None)]
        if t is ast.Delete:
            return [("next", s, None)]
        raise GiveUp("statement %s not supported" % t.__name__, n)

    def is_raise(self, v):
        return isinstance(v, tuple) and v and v[0] == "!raise"

    def nx(self, vs):
        v, s = vs
        if self.is_raise(v):
            return ("raise", s, v[1])
        return ("next", s, None)

    # ------------------------------------------------------------ assignment
    def assign(self, tg, v, s, fid):
        s = s.copy()
        if isinstance(tg, ast.Name):
            s.env[(fid, tg.id)] = v
            return s
        if isinstance(tg, (ast.Tuple, ast.List)):
            if v[0] == "tup" and len(v[1]) == len(tg.elts):
                for a, b in zip(tg.elts, v[1]):
                    s = self.assign(a, b, s, fid)
            else:
                for a in tg.elts:
                    s = self.assign(a.value if isinstance(a, ast.Starred) else a, TOP, s, fid)
            return s
        if isinstance(tg, ast.Attribute):
            r = self.ev(tg.value, s, fid)
            o, s = r[0]
            s = s.copy()
            if o == ("self",):
                if tg.attr in STATS and tg.attr not in ("num_col_added_sp_", "time_spent_sp_"):
                    v = self.stat_assign(tg.attr, v, s, tg)
                if tg.attr == "is_fitted_" and v == TRUE:
                    s.g["fitted"] = True
                s.attrs[tg.attr] = v
            return s
        if isinstance(tg, ast.Subscript):
            res = self.ev(tg.value, s, fid)
            o, s = res[0]
            s = s.copy()
            ires = self.ev(tg.slice, s, fid)
            ix, s = ires[0]
            s = s.copy()
            if self.holds(v):
                self.blur(s, "protocol object stored in a container", tg)
            if o[0] == "ref" or o[0] == "statlv":
                self.unsure("subscript assignment to a statistics list not understood", tg, ("C03", "C07"))
            return s
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, TOP, s, fid)
        raise GiveUp("assignment target not supported", tg)

    def stat_assign(self, attr, v, s, node):
        if attr in ("time_spent_master_", "time_add_col_"):
            if v[0] == "c" and v[1] == 0:
                return ("total", attr)
            if v[0] == "i" and v[1] == 0:
                return ("total", attr)
            if v[0] == "addto" and v[1] == ("total", attr):
                self.check_dur(attr, v[2], s, node)
                return ("total", attr)
            if v == ("total", attr):
                return v
            if v[0] == "dur":
                self.bad("C07", "%s is overwritten instead of increased" % attr, node)
                return ("total", attr)
            if self.vague(v):
                self.unsure("value assigned to %s not understood" % attr, node, ("C07",))
                return TOP
            self.bad("C07", "%s is assigned something that is not a measured duration" % attr, node)
            return ("total", attr)
        return v

    def check_dur(self, attr, d, s, node):
        want = {"time_spent_master_": "solve", "time_add_col_": "addcol"}[attr]
        if d[0] == "dur":
            evs = {e[0] if isinstance(e, tuple) else e for e in d[1]}
            if evs - {want, "time"} and (evs - {want}) & {"solve", "gen", "upd", "addcol", "ip", "build"}:
                self.bad("C07", "%s is increased by a duration that covers other work (%s)"
                         % (attr, ",".join(sorted(evs - {want}))), node)
            elif want == "solve" and "solve" not in evs:
                self.bad("C07", "%s is increased by a duration that does not cover the master solve" % attr, node)
        elif self.vague(d):
            self.unsure("duration added to %s not understood" % attr, node, ("C07",))
        elif d[0] == "c" and d[1] == 0:
            pass
        elif d[0] in ("negdur",):
            self.bad("C07", "%s is decreased" % attr, node)
        else:
            self.bad("C07", "%s is increased by something that is not a measured duration" % attr, node)

    def augassign(self, n, s, fid):
        tg = n.target
        out = []
        # slots of per-subproblem statistics
        if isinstance(tg, ast.Subscript):
            for o, s1 in self.ev(tg.value, s, fid):
                for ix, s2 in self.ev(tg.slice, s1, fid):
                    for v, s3 in self.ev(n.value, s2, fid):
                        if self.is_raise(v):
                            out.append(self.nx((v, s3)))
                            continue
                        s3 = s3.copy()
                        self.slot_aug(n, o, ix, v, s3)
                        out.append(("next", s3, None))
            return out
        load = ast.copy_location(ast.Name(tg.id, ast.Load()), tg) if isinstance(tg, ast.Name) else \
            ast.copy_location(ast.Attribute(tg.value, tg.attr, ast.Load()), tg)
        bop = ast.copy_location(ast.BinOp(load, n.op, n.value), n)
        if isinstance(n.op, ast.BitOr):
            bop = ast.copy_location(ast.BoolOp(ast.Or(), [n.value, load]), n)
        elif isinstance(n.op, ast.BitAnd):
            bop = ast.copy_location(ast.BoolOp(ast.And(), [n.value, load]), n)
        for v, s1 in self.ev(bop, s, fid):
            if self.is_raise(v):
                out.append(self.nx((v, s1)))
                continue
            out.append(("next", self.assign(tg, v, s1, fid), None))
        return out

    def slot_aug(self, n, o, ix, v, s):
        name = None
        if o[0] == "statlv":
            name, lv = o[1], o[2]
        elif o[0] in ("ref",):
            self.unsure("statistics list updated at an unknown position", n, ("C03", "C07"))
            return
        if name is None:
            return
        ok = ix[0] == "si" and ix[1] == lv and self.is_current(s, lv, ix[2])
        sign = isinstance(n.op, ast.Add)
        if name == "num_col_added_sp_":
            if not ok or s.g["slot"] != (lv, ix[2] if len(ix) > 2 else None):
                if self.miss(ix) == "?" and (self.vague(ix) or lv == "?"):
                    self.unsure("column counter slot not understood", n, ("C03", "C07"))
                    return
                self.bad("C03", "the column counter of another subproblem is changed", n)
                return
            if not sign:
                self.bad("C03", "the column counter is decreased", n)
                return
            i = self.toint(s, v)
            if i is None:
                if v[0] == "cnt":
                    i = ("i", None, (("A", 0),))
                else:
                    self.unsure("amount added to the column counter not understood", n, ("C03",))
                    s.g["kd"], s.g["kc"] = 0, None
                    return
            self.count(s, i, n)
        elif name == "time_spent_sp_":
            if not ok:
                if self.miss(ix) == "?" or lv == "?":
                    self.unsure("timer slot not understood", n, ("C07",))
                    return
                self.bad("C07", "the time of a subproblem is added to another subproblem's slot", n)
                return
            if not sign:
                self.bad("C07", "time_spent_sp_ is decreased", n)
                return
            if v[0] == "dur":
                for e in v[1]:
                    if e == "old" or (isinstance(e, tuple) and (e[1], e[2]) != (lv, ix[2])) or \
                            e in ("solve", "build", "ip"):
                        self.bad("C07", "time_spent_sp_ is increased by a duration covering other work", n)
                        break
                else:
                    if not any(isinstance(e, tuple) for e in v[1]):
                        self.bad("C07", "time_spent_sp_ is increased by a duration that covers no work of the "
                                 "subproblem", n)
            elif self.vague(v):
                self.unsure("duration added to time_spent_sp_ not understood", n, ("C07",))
            else:
                self.bad("C07", "time_spent_sp_ is increased by something that is not a measured duration", n)

    def count(self, s, i, n):
        g = s.g
        if i[1] is not None and i[1] < 0:
            self.bad("C03", "the column counter is decreased", n)
        kc, kd = g["kc"], g["kd"]
        nkc = nkd = None
        if i[1] is not None:
            if kc is not None:
                nkc = kc + i[1]
            if kd is not None:
                nkd = kd - i[1]
        for b, c in i[2]:
            if b == "A" and kc is not None:
                nkd = -(kc + c)
        if nkc is not None and abs(nkc) > CAP:
            nkc = None
        if nkd is not None and abs(nkd) > CAP:
            nkd = None
        if nkc is None and nkd is None:
            self.bad("C03", "the per-subproblem column counter does not follow the accepted columns", n)
            nkd = 0
        g["kc"], g["kd"] = nkc, nkd

    # ------------------------------------------------------------ loops
    def is_current(self, s, lv, sp=None):
        tags = [f[1] for f in s.g["loops"]]
        return lv in tags and (sp is None or sp in tags)

    def loop_while(self, n, s, fid):
        self.stats["loops"] += 1
        lv = self.live_head(n)
        table, work, dirty = {}, [s], {}
        visits = 0
        final = False
        out = []
        while True:
            for x in work:
                self.arrive(table, self.prune(x, lv, fid), dirty)
            work = []
            if not dirty:
                if final:
                    break
                final = True
                out = []
                dirty = dict.fromkeys(table)
            k = next(iter(dirty))
            del dirty[k]
            x = table[k]
            visits += 1
            if visits > 3000:
                raise GiveUp("loop state limit", n)
            for b, s1 in self.cond(n.test, x, fid):
                if self.is_raise(b):
                    out.append(self.nx((b, s1)))
                    continue
                if not b:
                    if final:
                        out += self.block(n.orelse, [s1], fid)
                    continue
                for kind, s2, p in self.block(n.body, [s1], fid):
                    if kind in ("next", "cont"):
                        if not final:
                            work.append(self.widen(s2))
                    elif kind == "brk":
                        out.append(("next", s2, None))
                    else:
                        out.append((kind, s2, p))
        self.stats["states"] += len(table)
        return self.squash(out)

    def squash(self, outs):
        """join outcomes of the same kind that differ in counters only"""
        res, tab = [], {}
        for kind, s, p in dict.fromkeys(outs):
            if kind != "next":
                res.append((kind, s, p))
                continue
            k = self.jkey(s)
            tab[k] = self.join(tab[k], s) if k in tab else s
        return [("next", s, None) for s in tab.values()] + res

    def widen(self, s):
        g = s.g
        if g["hi"] is not None and g["hi"] < -1:
            s = s.copy()
            s.g["hi"] = -1
        if s.g["lo"] is not None and s.g["lo"] < 0:
            s = s.copy()
            s.g["lo"] = None
        return s

    def push(self, s, kind, tag, ops, mode="full"):
        # kind, tag, upd complete so far, upd in this round, ask complete, ask in this round,
        # operations the body performs, at least one round made
        if mode == "part":
            ops = ops + ("part",)
        s.g["loops"] = s.g["loops"] + ((kind, tag, mode != "part", 0,
                                        mode == "full" or (mode == "rev" and kind == "sp"), 0, ops, False),)

    def frame_iter_end(self, s, tag):
        fs = list(s.g["loops"])
        k, t, ua, uc, aa, ac, ops, ne = fs[-1]
        fs[-1] = (k, t, ua and uc == 1, 0, aa and ac == 1, 0, ops, True)
        s.g["loops"] = tuple(fs)

    def exhaust(self, s):
        """the innermost loop ends by exhaustion; False if that is impossible"""
        k, t, ua, uc, aa, ac, ops, ne = s.g["loops"][-1]
        if k == "lv" and "part" not in ops:
            if ne is False and s.g["lvne"] is True:
                return False
            s.g["lvne"] = ne
        return True

    def enter(self, s):
        """one more round of the innermost loop; False if that is impossible"""
        if s.g["loops"][-1][0] == "lv":
            if s.g["lvne"] is False:
                return False
            s.g["lvne"] = True
        return True

    def pop(self, s, exhausted):
        fs = list(s.g["loops"])
        k, t, ua, uc, aa, ac, ops, ne = fs.pop()
        upd = ua and exhausted and "upd" in ops
        ask = aa and exhausted and "ask" in ops
        g = s.g
        if k == "sp" and g["pend"] is None and g["kd"] == 0 and (g["slot"] is not None or g["A"] != 0):
            g["slot"], g["kc"], g["A"] = None, 0, 0
            self.drop_base(s, "A")
        if k == "sp" and fs and fs[-1][0] == "lv":
            k2, t2, ua2, uc2, aa2, ac2, ops2, ne2 = fs[-1]
            fs[-1] = (k2, t2, ua2, self.merge(uc2, upd), aa2, self.merge(ac2, ask), ops2, ne2)
            s.g["loops"] = tuple(fs)
            return
        s.g["loops"] = tuple(fs)
        if k == "lv":
            if upd and s.g["upd"] != "all":
                s.g["upd"] = "all"
            if ask and s.g["ask"] != "all":
                s.g["ask"] = "all"

    def merge(self, c, full):
        # number of complete sp loops of this operation in the current level
        return min(c + 1, 2) if full else c

    def ops_of(self, nodes):
        k = id(nodes[0])
        if k not in self.opscache:
            self._seen_ops = set()
            self.opscache[k] = (tuple(sorted(self.body_ops(nodes))), nodes)
        return self.opscache[k][0]

    def body_ops(self, nodes):
        """which protocol operations occur (transitively by name) in a loop body"""
        ops = set()
        for nd in nodes:
            for x in ast.walk(nd):
                if isinstance(x, ast.Attribute):
                    if x.attr == "update_subproblem":
                        ops.add("upd")
                    if x.attr == "generate_columns":
                        ops.add("ask")
                    if isinstance(x.value, ast.Name) and x.value.id in ("self", "cls"):
                        m = self.prog.method(self.cls, x.attr)
                        if m is not None and id(m.node) not in self._seen_ops:
                            self._seen_ops.add(id(m.node))
                            ops |= self.body_ops([m.node])
                if isinstance(x, ast.Name):
                    for d in ast.walk(self.fit.node):
                        if isinstance(d, ast.FunctionDef) and d.name == x.id and id(d) not in self._seen_ops:
                            self._seen_ops.add(id(d))
                            ops |= self.body_ops([d])
                        if isinstance(d, ast.Assign) and isinstance(d.value, (ast.Lambda, ast.Attribute)) and \
                                any(isinstance(t, ast.Name) and t.id == x.id for t in d.targets) and \
                                id(d) not in self._seen_ops:
                            self._seen_ops.add(id(d))
                            ops |= self.body_ops([d.value])
                    f = self.cur_mod.funcs.get(x.id)
                    if f is not None and id(f.node) not in self._seen_ops:
                        self._seen_ops.add(id(f.node))
                        ops |= self.body_ops([f.node])
        return ops

    def loop_for(self, n, s, fid):
        self.stats["loops"] += 1
        out = []
        # generator helper in loop position
        gen = self.gen_call(n.iter, s, fid)
        if gen is not None:
            f, genv, s1 = gen
            out = []
            self.yield_stack.append((n.target, n.body, fid))
            self.depth += 1
            fid2 = self.depth + 100
            for k, v in genv.items():
                s1.env[(fid2, k)] = v
            try:
                self.learn(f.node)
                res = self.block(f.node.body, [s1], fid2)
            finally:
                self.depth -= 1
                self.yield_stack.pop()
            for kind, s2, p in res:
                s2 = s2.copy()
                for k in [k for k in s2.env if k[0] == fid2]:
                    del s2.env[k]
                if kind in ("next", "ret"):
                    out += self.block(n.orelse, [s2], fid)
                elif kind == "ybrk":
                    out.append(("next", s2, None))
                elif kind == "yret":
                    out.append(("ret", s2, p))
                else:
                    out.append((kind, s2, p))
            return list(dict.fromkeys(out))
        for it, s1 in self.ev(n.iter, s, fid):
            if self.is_raise(it):
                out.append(self.nx((it, s1)))
                continue
            out += self.iterate(it, n.target, n.body, n.orelse, s1.copy(), fid, n)
        return list(dict.fromkeys(out))

    def do_yield(self, n, s, fid):
        if not self.yield_stack or isinstance(n, ast.YieldFrom):
            raise GiveUp("generator not supported here", n)
        target, body, bfid = self.yield_stack[-1]
        out = []
        for v, s1 in (self.ev(n.value, s, fid) if n.value else [(NONE, s)]):
            s2 = self.assign(target, v, s1, bfid)
            saved = self.yield_stack
            self.yield_stack = saved[:-1]
            try:
                res = self.block(body, [s2], bfid)
            finally:
                self.yield_stack = saved
            for kind, s3, p in res:
                if kind in ("next", "cont"):
                    out.append(("next", s3, None))
                elif kind == "brk":
                    out.append(("ybrk", self.yield_break(s3), None))
                elif kind == "ret":
                    out.append(("yret", self.yield_break(s3), p))
                else:
                    out.append((kind, s3, p))
        return out

    def yield_break(self, s):
        return s

    def gen_call(self, e, s, fid):
        if not isinstance(e, ast.Call):
            return None
        f = None
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and \
                s.env.get((fid, e.func.value.id)) == ("self",):
            f = self.prog.method(self.cls, e.func.attr)
        elif isinstance(e.func, ast.Name):
            r = self.prog.resolve(self.cur_mod, e.func.id)
            if r and r[0] == "func":
                f = r[1]
        if f is None or not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            return None
        args = []
        for a in e.args:
            v, s = self.ev(a, s, fid)[0]
            args.append(v)
        if isinstance(e.func, ast.Attribute) and not f.static:
            args = [("self",)] + args
        names = [a.arg for a in f.node.args.args]
        return f, dict(zip(names, args)), s.copy()

    def iterate(self, it, target, body, orelse, s, fid, node):
        if self.yield_stack:
            return self.iterate0(it, target, body, orelse, s, fid, node)
        k = (id(node), it, s, fid, self.depth, tuple(sorted(getattr(self, "closures", {}).items())))
        if k not in self.memo:
            if len(self.memo) > 20000:
                self.memo.clear()
            self.memo[k] = self.iterate0(it, target, body, orelse, s, fid, node)
        return [(a, b.copy(), c) for a, b, c in self.memo[k]]

    def iterate0(self, it, target, body, orelse, s, fid, node):
        k = it[0]
        if k == "flat":
            inner_t, inner_v = it[1], it[2]
            return self.iter_flat(it, target, body, orelse, s, fid, node)
        if k == "tup" or (k == "list"):
            # literal tuple: unrolled (finite constant structure)
            cur = [s]
            out = []
            for v in it[1]:
                nxt = []
                for x in cur:
                    x = self.assign(target, v, x, fid)
                    for kind, s2, p in self.block(body, [x], fid):
                        if kind in ("next", "cont"):
                            nxt.append(s2)
                        elif kind == "brk":
                            out.append(("next", s2, None))
                        else:
                            out.append((kind, s2, p))
                cur = list(dict.fromkeys(nxt))
            for x in cur:
                out += self.block(orelse, [x], fid)
            return out
        tag = "%d" % node.lineno + (":%d" % self.depth if self.depth else "") + ":%d" % node.col_offset
        elem = self.elem_of(it, tag)
        kind_frame = self.frame_of(it)
        seen, out = set(), []
        colloop = k == "cols" or (k == "enum" and it[1][0] == "cols") or (k == "range" and it[1][0] == "cols")
        start = s.copy()
        if kind_frame:
            self.push(start, kind_frame, tag, self.ops_of(body), self.mode(it))
        if colloop:
            if start.g["pend"] != "cols":
                self.bad("C03", "a column list is offered twice", node)
            start.g["pend"] = "offering"
        # number of iterations as a base for list lengths
        base = "it:" + tag
        work = [start]
        what = self.len_name(it)
        if kind_frame == "lv":
            for d in (start.heap, start.attrs):
                for h, v in list(d.items()):
                    if v[0] == "L" and v[1][0] == "i" and v[1][1] == 0:
                        d[h] = ("L", ("i", 0, ((base, 0),)), v[2])
        lv = self.live_head(node)
        table, dirty = {}, {}
        visits = 0
        final = False
        while True:
            for x in work:
                self.arrive(table, self.prune(x, lv, fid), dirty)
            work = []
            if not dirty:
                if final:
                    break
                final = True
                out = []
                dirty = dict.fromkeys(table)
            kk = next(iter(dirty))
            del dirty[kk]
            x = table[kk]
            visits += 1
            if visits > 3000:
                raise GiveUp("loop state limit", node)
            if final:
                # exit: exhausted
                e = x.copy()
                if colloop:
                    e.g["pend"] = None
                if not kind_frame or self.exhaust(e):
                    if kind_frame:
                        self.pop(e, True)
                    self.rebase(e, base, "len:" + what if what else None)
                    self.invalidate(e, tag)
                    out += self.block(orelse, [e], fid)
            # one more iteration
            y = x.copy()
            if kind_frame and not self.enter(y):
                continue
            self.invalidate(y, tag)
            self.iter_bump(y, base)
            if colloop:
                y.g["pend"] = "col"
            y = self.assign(target, elem, y, fid)
            for kind, s2, p in self.block(body, [y], fid):
                s2 = s2.copy()
                self.fuzzy = s2.g["fuzzy"]
                if colloop and s2.g["pend"] == "col" and kind in ("next", "cont", "brk", "ret"):
                    self.bad("C03", "a generated column is skipped without being offered to the master", node)
                    s2.g["pend"] = "offered"
                if kind in ("next", "cont"):
                    if final:
                        continue
                    if kind_frame:
                        self.frame_iter_end(s2, tag)
                    if colloop:
                        s2.g["pend"] = "offering"
                    work.append(self.widen(s2))
                elif kind in ("brk", "ret", "raise", "ybrk", "yret"):
                    if colloop and kind != "raise":
                        self.bad("C03", "offering stops before every generated column was offered", node)
                        s2.g["pend"] = None
                    if kind_frame:
                        self.pop(s2, False)
                    self.rebase(s2, base, None)
                    self.invalidate(s2, tag)
                    if kind == "brk":
                        out.append(("next", s2, None))
                    else:
                        out.append((kind, s2, p if kind != "ret" else p))
                else:
                    out.append((kind, s2, p))
        self.stats["states"] += len(table)
        self.loopsz.setdefault(node.lineno, []).append(len(table))
        return self.squash(out)

    def iter_flat(self, it, target, body, orelse, s, fid, node):
        """iteration over all (level, subproblem) pairs in order"""
        t1, t2, val = it[1], it[2], it[3]
        outer = ("range", ("levels",)) if it[4] == "idx" else ("levels",)
        seen, out = set(), []
        start = s.copy()
        self.push(start, "lv", t1, self.ops_of(body))
        work = [(start, "lv")]
        lv = self.live_head(node)
        while work:
            x, ph = work.pop()
            x = self.prune(x, lv, fid)
            if (x, ph) in seen:
                continue
            seen.add((x, ph))
            if len(seen) > 6000:
                raise GiveUp("loop state limit", node)
            if ph == "lv":
                e = x.copy()
                if self.exhaust(e):
                    self.pop(e, True)
                    self.invalidate(e, t1)
                    self.invalidate(e, t2)
                    out += self.block(orelse, [e], fid)
                y = x.copy()
                if not self.enter(y):
                    continue
                self.invalidate(y, t1)
                self.push(y, "sp", t2, self.ops_of(body))
                work.append((y, "sp"))
            else:
                e = x.copy()
                self.pop(e, True)
                self.invalidate(e, t2)
                self.frame_iter_end(e, t1)
                work.append((e, "lv"))
                y = x.copy()
                self.invalidate(y, t2)
                y = self.assign(target, val, y, fid)
                for kind, s2, p in self.block(body, [y], fid):
                    s2 = s2.copy()
                    if kind in ("next", "cont"):
                        self.frame_iter_end(s2, t2)
                        work.append((self.widen(s2), "sp"))
                    else:
                        if kind in ("brk", "ret", "raise", "ybrk", "yret"):
                            self.pop(s2, False)
                            self.pop(s2, False)
                            self.invalidate(s2, t1)
                            self.invalidate(s2, t2)
                        out.append(("next", s2, None) if kind == "brk" else (kind, s2, p))
        return list(dict.fromkeys(out))

    def iter_bump(self, s, base):
        """values relative to the iteration count shift by one"""
        if base not in [b for b in s.g.get("itb", ())]:
            s.g["itb"] = s.g.get("itb", ()) + (base,)
        for d in (s.env, s.attrs, s.heap):
            for k in list(d):
                d[k] = self.shift(d[k], base)

    def rebase(self, s, base, to):
        def f(v):
            if v[0] == "i":
                return ("i", v[1], tuple((to if b == base else b, c) for b, c in v[2] if b != base or to))
            if v[0] == "L" and v[1][0] == "i":
                return ("L", f(v[1])) + v[2:]
            return v
        for d in (s.env, s.attrs, s.heap):
            for k in list(d):
                d[k] = f(d[k])
        if base in s.g.get("itb", ()):
            s.g["itb"] = tuple(b for b in s.g["itb"] if b != base)

    def lname(self, it):
        return "len:levels" if it[0] == "levels" else "len:lv:" + it[1]

    def mode(self, it):
        k = it[0]
        if k in ("part", "rev"):
            m = self.mode(it[1])
            return k if m == "full" else "full" if m == k == "rev" else "part"
        if k in ("range", "enum"):
            return self.mode(it[1])
        if k == "zip":
            ms = {self.mode(x) for x in it[1]}
            return ms.pop() if len(ms) == 1 else "part"
        return "full"

    def len_name(self, it):
        k = it[0]
        if k == "rev":
            return self.len_name(it[1])
        if k == "levels":
            return "levels"
        if k == "lv":
            return "lv:" + it[1]
        if k in ("range", "enum"):
            return self.len_name(it[1])
        if k == "zip":
            return self.len_name(it[1][0])
        if k == "plevels":
            return "levels"
        if k == "plv":
            return "lv:" + it[1]
        return None

    def frame_of(self, it):
        k = it[0]
        if k == "levels" or k == "plevels":
            return "lv"
        if k in ("lv", "plv"):
            return "sp"
        if k in ("range", "enum", "part", "rev"):
            return self.frame_of(it[1])
        if k == "zip":
            fs = {self.frame_of(x) for x in it[1]}
            return fs.pop() if len(fs) == 1 else None
        return None

    def elem_of(self, it, tag):
        k = it[0]
        if k == "levels":
            return ("lv", tag)
        if k == "plevels":
            return ("plv", tag)
        if k == "lv":
            return ("sp", it[1], tag)
        if k == "plv":
            return ("pown", it[1], tag)
        if k == "range":
            b = it[1]
            while b[0] in ("rev", "part", "range"):
                b = b[1]
            if b[0] in ("levels", "plevels"):
                return ("li", tag)
            if b[0] in ("lv", "plv"):
                return ("si", b[1], tag)
            if b[0] == "cols":
                return ("ci", tag)
            return TOP
        if k == "enum" and self.mode(it[1]) != "full":
            return ("tup", (self.elem_of(("range", it[1]), "!" + tag), self.elem_of(it[1], tag)))
        if k == "enum":
            return ("tup", (self.elem_of(("range", it[1]), tag), self.elem_of(it[1], tag)))
        if k == "zip":
            return ("tup", tuple(self.elem_of(x, tag) for x in it[1]))
        if k == "cols":
            return ("col", it[1])
        if k == "ref":
            return TOP
        if k in ("rev", "part"):
            return self.elem_of(it[1], tag)
        if k == "crange":
            return ("i", None, ())
        if k == "range" and it[1][0] in ("range", "rev", "part"):
            return self.elem_of(it[1], tag)
        if k == "statlvls":
            return ("statlv", it[1], tag)
        return TOP

    # ------------------------------------------------------------ conditions
    def cond(self, e, s, fid):
        """[(bool | raise, state)]"""
        if isinstance(e, ast.BoolOp):
            res = [(None, s)]
            isand = isinstance(e.op, ast.And)
            out, cur = [], [s]
            for v in e.values:
                nxt = []
                for x in cur:
                    for b, s1 in self.cond(v, x, fid):
                        if self.is_raise(b):
                            out.append((b, s1))
                        elif b == isand:
                            nxt.append(s1)
                        else:
                            out.append((b, s1))
                cur = nxt
            return list(dict.fromkeys(out + [(isand, x) for x in cur]))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(b if self.is_raise(b) else (not b), x) for b, x in self.cond(e.operand, s, fid)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts, left = [], e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [op], [r]), e))
                left = r
            return self.cond(ast.copy_location(ast.BoolOp(ast.And(), parts), e), s, fid)
        out = []
        for v, s1 in self.ev(e, s, fid):
            if self.is_raise(v):
                out.append((v, s1))
            else:
                out += self.truth(v, s1, e)
        return list(dict.fromkeys(out))

    def both(self, s):
        return [(True, s), (False, s)]

    def truth(self, v, s, e):
        k = v[0]
        if k == "c":
            return [(bool(v[1]), s)]
        if k == "stale":
            self.unsure("a value left over from earlier training is used (%s)" % v[1], e, ("C01", "C07"))
            return self.both(s)
        if k == "i":
            if v[1] is not None:
                return [(v[1] != 0, s)]
            for b, c in v[2]:
                if b == "A" and s.g["acc"] is not None and c == 0:
                    # A > 0 iff some column of the list was accepted
                    if s.g["A"] is not None:
                        return [(s.g["A"] != 0, s)]
                    return [(True, s)]
            return self.both(s)
        if k == "cmp":
            return self.compare(v[1], v[2], v[3], s, e)
        if k in ("self", "mp", "levels", "sp", "clo", "mpo"):
            return [(True, s)]
        if k == "resetflag":
            a = s.copy()
            a.g["reset"] = True
            return [(True, a), (False, s)]
        if v == ("added", "acc"):
            return [(s.g["A"] is None or s.g["A"] > 0, s)]
        if self.isfuzzy(v):
            return self.fuzz(s, e)
        return self.both(s)

    def fuzz(self, s, e):
        s = s.copy()
        self.blur(s, "condition not understood", e)
        return self.both(s)

    def compare(self, op, a, b, s, e):
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!=", "is": "is", "isnot": "isnot"}
        neg = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "==", "is": "isnot", "isnot": "is"}
        maxit, tl, ip, k = self.ctx
        for x, y, o in ((a, b, op), (b, a, flip.get(op, op))):
            if x[0] in ("maxit", "tlim") and y[0] in ("c", "i"):
                c = y[1]
                if isinstance(c, (int, float)) and not isinstance(c, bool):
                    sg = maxit if x[0] == "maxit" else tl
                    # np: value <= 0 ; pos: integer >= 1
                    if o == ">" and c == 0 or o == ">=" and c == 1 and x[0] == "maxit":
                        return [(sg == "pos", s)]
                    if o == "<=" and c == 0 or o == "<" and c == 1 and x[0] == "maxit":
                        return [(sg != "pos", s)]
                    if o in (">=", "<") and c == 0:
                        if sg == "pos":
                            return [(o == ">=", s)]
                        return self.both(s)
                    if o in ("==", "!=") and sg == "pos" and c <= 0:
                        return [(o == "!=", s)]
                    if o in (">", ">=", "==") and sg == "np" and c > 0:
                        return [(False, s)]
                    if o in ("<", "<=", "!=") and sg == "np" and c > 0:
                        return [(True, s)]
                return self.both(s)
            if x[0] == "i" and y[0] == "maxit" and maxit == "pos":
                for bb, c in x[2]:
                    if bb == "N":
                        return self.rel(o, c, s)
                return self.both(s)
            if x[0] == "el" and y[0] == "tlim":
                # elapsed ? limit
                if o in (">", ">="):
                    over_first = True
                elif o in ("<", "<="):
                    over_first = False
                else:
                    return self.both(s)
                fresh = not ({q[0] if isinstance(q, tuple) else q for q in x[1]} & {"solve", "gen"})
                over, ok = s.copy(), s.copy()
                if tl == "pos" and fresh:
                    over.g["chk"] = "over"
                    ok.g["chk"] = "ok"
                return [(over_first, over), (not over_first, ok)]
            if x[0] == "nclasses" and y[0] in ("c", "i") and isinstance(y[1], int):
                r = {"<": k < y[1], ">": k > y[1], "<=": k <= y[1], ">=": k >= y[1], "==": k == y[1],
                     "!=": k != y[1]}.get(o)
                if r is not None:
                    return [(r, s)]
            if x[0] == "resetflag" and y[0] == "c":
                t = s.copy()
                t.g["reset"] = True
                if o in ("is", "=="):
                    return [(True, t if y[1] else s), (False, s if y[1] else t)]
                return [(True, s if y[1] else t), (False, t if y[1] else s)]
        if a[0] == "c" and b[0] == "c":
            try:
                r = {"<": lambda: a[1] < b[1], ">": lambda: a[1] > b[1], "<=": lambda: a[1] <= b[1],
                     ">=": lambda: a[1] >= b[1], "==": lambda: a[1] == b[1], "!=": lambda: a[1] != b[1],
                     "is": lambda: a[1] is b[1] or a[1] == b[1],
                     "isnot": lambda: not (a[1] is b[1] or a[1] == b[1])}[op]()
                return [(bool(r), s)]
            except (TypeError, KeyError):
                return self.both(s)
        ia, ib = self.toint(s, a), self.toint(s, b)
        if ia and ib:
            d = None
            if ia[1] is not None and ib[1] is not None:
                d = ia[1] - ib[1]
            else:
                for bb, c in ia[2]:
                    for b2, c2 in ib[2]:
                        if bb == b2:
                            d = c - c2
            if d is not None:
                r = {"<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}.get(op)
                if r is not None:
                    return [(r, s)]
            # A > 0
            for x, y, o in ((ia, ib, op), (ib, ia, flip.get(op, op))):
                if y[1] == 0 and x[1] is None and o in (">", "!="):
                    for bb, c in x[2]:
                        if bb == "A" and c == 0:
                            return [(s.g["A"] is None or s.g["A"] > 0, s)]
                if y[1] == 0 and x[1] is None and o in ("==", "<="):
                    for bb, c in x[2]:
                        if bb == "A" and c == 0:
                            return [(not (s.g["A"] is None or s.g["A"] > 0), s)]
        if b == NONE and op in ("is", "isnot", "==", "!="):
            if a[0] in ("i", "self", "cols", "lv", "sp", "levels", "mp", "clk", "L"):
                return [(op in ("isnot", "!="), s)]
        if op in ("is", "==") and b[0] == "c" and isinstance(b[1], bool) and a[0] not in ("top",):
            return [(x if b[1] else not x, y) for x, y in self.truth(a, s, e)]
        if self.isfuzzy(a) or self.isfuzzy(b):
            return self.fuzz(s, e)
        return self.both(s)

    def rel(self, op, c, s):
        """N + c  op  m   with m >= 1 the iteration limit; facts are an interval of N - m"""
        lo, hi = s.g["lo"], s.g["hi"]

        def cut(nlo, nhi):
            l2 = lo if nlo is None else (nlo if lo is None else max(lo, nlo))
            h2 = hi if nhi is None else (nhi if hi is None else min(hi, nhi))
            if l2 is not None and h2 is not None and l2 > h2:
                return None
            t = s.copy()
            t.g["lo"], t.g["hi"] = l2, h2
            return t
        # d = N - m ; condition d + c op 0
        if op == ">=":
            T, F = [cut(-c, None)], [cut(None, -c - 1)]
        elif op == ">":
            T, F = [cut(-c + 1, None)], [cut(None, -c)]
        elif op == "<":
            T, F = [cut(None, -c - 1)], [cut(-c, None)]
        elif op == "<=":
            T, F = [cut(None, -c)], [cut(-c + 1, None)]
        elif op == "==":
            T, F = [cut(-c, -c)], [cut(None, -c - 1), cut(-c + 1, None)]
        elif op == "!=":
            F, T = [cut(-c, -c)], [cut(None, -c - 1), cut(-c + 1, None)]
        else:
            return self.both(s)
        return [(True, t) for t in T if t] + [(False, t) for t in F if t]

    # ------------------------------------------------------------ expressions
    def evs(self, exprs, s, fid):
        cur = [((), s)]
        for e in exprs:
            nxt = []
            for vs, x in cur:
                if vs and self.is_raise(vs[-1]):
                    nxt.append((vs, x))
                    continue
                for v, s1 in self.ev(e, x, fid):
                    nxt.append((vs + (v,), s1))
            cur = nxt
        return cur

    def ev(self, e, s, fid):
        t = type(e)
        if t is ast.Constant:
            if isinstance(e.value, int) and not isinstance(e.value, bool):
                return [(self.mkint(s, e.value), s)] if abs(e.value) <= CAP else [(C(e.value), s)]
            if e.value is Ellipsis:
                return [(TOP, s)]
            return [(C(e.value), s)]
        if t is ast.Name:
            if (fid, e.id) in s.env:
                return [(s.env[(fid, e.id)], s)]
            for f2 in range(fid - 1, -1, -1):
                if (f2, e.id) in s.env and getattr(self, "closures", {}).get(fid) == f2:
                    return [(s.env[(f2, e.id)], s)]
            r = self.prog.resolve(self.cur_mod, e.id)
            if r:
                if r[0] == "const":
                    if isinstance(r[1], ast.Constant):
                        return self.ev(r[1], s, fid)
                    return [(TOP, s)]
                if r[0] == "func":
                    return [(("fn", r[1]), s)]
                if r[0] == "class":
                    return [(("cls", r[1]), s)]
                if r[0] == "ext":
                    return [(("ext", r[1]), s)]
            if e.id in ("True", "False", "None"):
                return [(C({"True": True, "False": False, "None": None}[e.id]), s)]
            return [(("ext", "builtins." + e.id), s)]
        if t is ast.Tuple or t is ast.List:
            out = []
            for vs, s1 in self.evs(e.elts, s, fid):
                if vs and self.is_raise(vs[-1]):
                    out.append((vs[-1], s1))
                elif t is ast.Tuple:
                    out.append((("tup", vs), s1))
                elif not vs:
                    s1 = s1.copy()
                    key = ("h", e.lineno, e.col_offset)
                    s1.heap[key] = ("L", ("i", 0, ()), "empty")
                    out.append((("ref", key), s1))
                elif len(vs) == 1 and self.zero(vs[0]):
                    out.append((("one0",), s1))
                else:
                    out.append((("tup", vs), s1))
            return out
        if t is ast.Attribute:
            return self.attr(e, s, fid)
        if t is ast.Subscript:
            out = []
            for vs, s1 in self.evs([e.value, e.slice], s, fid):
                if self.is_raise(vs[-1]):
                    out.append((vs[-1], s1))
                else:
                    out.append((self.sub(vs[0], vs[1], s1, e), s1))
            return out
        if t is ast.Slice:
            def kind(x):
                if x is None or (isinstance(x, ast.Constant) and x.value is None):
                    return None
                return x
            lo, hi, st = kind(e.lower), kind(e.upper), kind(e.step)
            if isinstance(lo, ast.Constant) and lo.value == 0:
                lo = None
            if isinstance(st, ast.Constant) and st.value == 1:
                st = None
            neg = isinstance(st, ast.UnaryOp) and isinstance(st.op, ast.USub) and \
                isinstance(st.operand, ast.Constant) and st.operand.value == 1
            k = "rev" if lo is None and hi is None and neg else \
                "full" if lo is None and hi is None and st is None else "part"
            return [(("slice", k), s)]
        if t is ast.Call:
            return self.call(e, s, fid)
        if t is ast.IfExp:
            out = []
            for b, s1 in self.cond(e.test, s, fid):
                if self.is_raise(b):
                    out.append((b, s1))
                else:
                    out += self.ev(e.body if b else e.orelse, s1, fid)
            return out
        if t is ast.BoolOp:
            # value semantics: booleans are kept definite by splitting
            out = []
            cur = [s]
            isand = isinstance(e.op, ast.And)
            for i, v in enumerate(e.values):
                nxt = []
                for x in cur:
                    for val, s1 in self.ev(v, x, fid):
                        if self.is_raise(val):
                            out.append((val, s1))
                            continue
                        if i == len(e.values) - 1:
                            if val[0] in ("top", "cmp", "ndbool", "resetflag"):
                                for b, s2 in self.truth(val, s1, v):
                                    out.append((C(b), s2))
                            else:
                                out.append((val, s1))
                            continue
                        for b, s2 in self.truth(val, s1, v):
                            if b == isand:
                                nxt.append(s2)
                            else:
                                out.append((val if val[0] in ("c", "i") else C(b), s2))
                cur = nxt
            return list(dict.fromkeys(out))
        if t is ast.UnaryOp:
            if isinstance(e.op, ast.Not):
                return [(b if self.is_raise(b) else C(b), x) for b, x in self.cond(e, s, fid)]
            out = []
            for v, s1 in self.ev(e.operand, s, fid):
                if isinstance(e.op, ast.USub):
                    if v[0] == "i" and v[1] is not None:
                        v = self.mkint(s1, -v[1])
                    elif v[0] == "c" and isinstance(v[1], (int, float)):
                        v = C(-v[1])
                    elif v[0] == "dur":
                        v = ("negdur",)
                    elif not self.is_raise(v):
                        v = TOP
                out.append((v, s1))
            return out
        if t is ast.Compare:
            if len(e.ops) > 1:
                return [(b if self.is_raise(b) else C(b), x) for b, x in self.cond(e, s, fid)]
            out = []
            names = {ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
                     ast.Is: "is", ast.IsNot: "isnot"}
            for vs, s1 in self.evs([e.left, e.comparators[0]], s, fid):
                if self.is_raise(vs[-1]):
                    out.append((vs[-1], s1))
                    continue
                op = names.get(type(e.ops[0]))
                if op is None:
                    out.append((TOP if self.isfuzzy(vs[0]) or self.isfuzzy(vs[1]) else FREE, s1))
                    continue
                for b, s2 in self.compare(op, vs[0], vs[1], s1, e):
                    out.append((C(b), s2))
            return list(dict.fromkeys(out))
        if t is ast.BinOp:
            out = []
            for vs, s1 in self.evs([e.left, e.right], s, fid):
                if self.is_raise(vs[-1]):
                    out.append((vs[-1], s1))
                else:
                    out.append((self.binop(e.op, vs[0], vs[1], s1, e), s1))
            return out
        if t in (ast.JoinedStr, ast.FormattedValue):
            cur = [s]
            for x in ast.iter_child_nodes(e):
                if isinstance(x, (ast.FormattedValue,)):
                    nxt = []
                    for y in cur:
                        nxt += [s1 for _, s1 in self.ev(x.value, y, fid)]
                    cur = nxt
            return [(TOP, x) for x in cur]
        if t is ast.Lambda:
            return [(("clo", e, fid), s)]
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            return self.comp(e, s, fid)
        if t is ast.Dict:
            out = []
            for vs, s1 in self.evs([x for x in e.keys + e.values if x is not None], s, fid):
                if vs and self.is_raise(vs[-1]):
                    out.append((vs[-1], s1))
                    continue
                if any(self.holds(v) for v in vs):
                    s1 = s1.copy()
                    self.blur(s1, "protocol object stored in a dictionary", e)
                out.append((TOP, s1))
            return out
        if t is ast.NamedExpr:
            out = []
            for v, s1 in self.ev(e.value, s, fid):
                out.append((v, self.assign(e.target, v, s1, fid) if not self.is_raise(v) else s1))
            return out
        if t is ast.Starred:
            return self.ev(e.value, s, fid)
        raise GiveUp("expression %s not supported" % t.__name__, e)

    def zero(self, v):
        return v[0] in ("i", "c") and v[1] == 0 and not isinstance(v[1], bool)

    def binop(self, op, a, b, s, e):
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x == ("one0",):
                    if y[0] == "i":
                        for bb, c in y[2]:
                            if bb.startswith("len:") and c == 0:
                                return ("L", y, "zero")
                    return TOP
        if isinstance(op, ast.Sub):
            if a[0] == "clk" and b[0] == "clk":
                between = b[2] - a[2]
                if a[2] - b[2]:
                    return ("negdur",)
                if b[1] == "start":
                    return ("el", a[2])
                return ("dur", frozenset(between))
            if a[0] == "el" or b[0] == "el":
                return TOP
            ia, ib = self.toint(s, a), self.toint(s, b)
            if ia and ib and ib[1] is not None:
                return self.addint(ia, -ib[1])
            if a[0] == "total" and b[0] == "dur":
                return ("addto", a, ("negdur",))
            return TOP
        if isinstance(op, ast.Add):
            if a[0] == "total":
                return ("addto", a, b)
            if b[0] == "total":
                return ("addto", b, a)
            if a[0] == "dur" and b[0] == "dur":
                return ("dur", a[1] | b[1])
            ia, ib = self.toint(s, a), self.toint(s, b)
            if ia and ib:
                if ib[1] is not None:
                    return self.addint(ia, ib[1])
                if ia[1] is not None:
                    return self.addint(ib, ia[1])
            return TOP
        if isinstance(op, (ast.BitOr, ast.BitAnd)) and a[0] == "c" and b[0] == "c" and \
                isinstance(a[1], bool) and isinstance(b[1], bool):
            return C(a[1] or b[1]) if isinstance(op, ast.BitOr) else C(a[1] and b[1])
        dat = self.DATA + ("c", "i", "el", "clk", "dur", "maxit", "tlim")
        if a[0] in dat and b[0] in dat:
            return FREE
        return TOP

    def sub(self, o, ix, s, e):
        k = o[0]
        if k == "tup" and ix[0] == "i" and ix[1] is not None and -len(o[1]) <= ix[1] < len(o[1]):
            return o[1][ix[1]]
        if k == "levels":
            if ix[0] == "slice":
                return ("part", o) if ix[1] == "part" else ("rev", o) if ix[1] == "rev" else o
            return ("lv", ix[1]) if ix[0] == "li" else ("lv", self.miss(ix))
        if k == "plevels":
            return ("plv", ix[1]) if ix[0] == "li" else ("plv", self.miss(ix))
        if k == "lv":
            if ix[0] == "si" and ix[1] == o[1]:
                return ("sp", o[1], ix[2])
            if ix[0] == "slice":
                return ("part", o) if ix[1] == "part" else ("rev", o) if ix[1] == "rev" else o
            return ("sp", o[1], self.miss(ix))
        if k == "plv":
            if ix[0] == "si" and ix[1] == o[1]:
                return ("pown", o[1], ix[2])
            return ("pother",) if self.miss(ix) == "!" else TOP
        if k == "ref":
            # statistics list of lists
            for a in ("num_col_added_sp_", "time_spent_sp_"):
                if s.attrs.get(a) == o:
                    return ("statlv", a, ix[1] if ix[0] == "li" else self.miss(ix))
            return TOP
        if k == "statroot":
            return ("statlv", o[1], ix[1] if ix[0] == "li" else self.miss(ix))
        if k == "cols" and ix[0] == "ci":
            return ("col", o[1])
        if k in self.DATA and ix[0] in self.DATA + ("slice", "li", "si", "ci", "c", "i"):
            return FREE
        return TOP

    DATA = ("Xchk", "ychk", "yenc", "Xraw", "yraw", "free", "lenc", "classes", "nclasses", "duals", "col")

    def miss(self, ix):
        """an index that does not belong to this list: definitely wrong or unknown"""
        if ix[0] in ("li", "si", "ci") or (ix[0] in ("i", "c") and ix[1] is not None):
            return "!"
        return "?"

    def attr(self, e, s, fid):
        out = []
        for o, s1 in self.ev(e.value, s, fid):
            if self.is_raise(o):
                out.append((o, s1))
                continue
            if o == ("self",):
                if e.attr in ("num_col_added_sp_", "time_spent_sp_") and \
                        s1.attrs.get(e.attr, TOP)[0] == "L":
                    out.append((("statroot", e.attr), s1))
                    continue
                if e.attr in s1.attrs:
                    out.append((s1.attrs[e.attr], s1))
                    continue
                m = self.prog.method(self.cls, e.attr)
                if m is not None:
                    if m.prop:
                        out += self.inline(m, [("self",)], {}, s1, e)
                    else:
                        out.append((("meth", m), s1))
                    continue
                c = self.prog.class_const(self.cls, e.attr)
                if c and isinstance(c[0], ast.Constant):
                    out += self.ev(c[0], s1, fid)
                    continue
                out.append((("selfattr", e.attr), s1))
            elif o == ("mp",):
                out.append((("resetflag",) if e.attr == "reset_timer_" else ("mpattr", e.attr), s1))
            elif o[0] == "sp":
                out.append((("spattr", o, e.attr), s1))
            elif o[0] == "enc" and e.attr == "classes_":
                out.append((("classes",), s1))
            elif o[0] == "enc":
                out.append((("encattr", o, e.attr), s1))
            elif o[0] == "ext":
                out.append((("ext", o[1] + "." + e.attr), s1))
            elif o[0] == "ref":
                out.append((("refm", o[1], e.attr), s1))
            elif o[0] == "classes" and e.attr in ("size",):
                out.append((("nclasses",), s1))
            elif o[0] == "classes" and e.attr == "shape":
                out.append((("tup", (("nclasses",),)), s1))
            elif o[0] == "added" and e.attr == "count":
                out.append((("addedcount", o), s1))
            elif o[0] == "super":
                out.append((("superm", o[1], e.attr), s1))
            elif o == FREE:
                out.append((FREE, s1))
            elif o[0] in self.DATA and e.attr in ("shape", "size", "dtype", "ndim", "T", "nnz"):
                out.append((FREE, s1))
            else:
                out.append((("unk", o, e.attr), s1))
        return out

    # ------------------------------------------------------------ comprehension
    def comp(self, e, s, fid):
        gens = e.generators
        out = []
        if len(gens) == 2 and not gens[0].ifs and not gens[1].ifs:
            # all (level, subproblem) pairs
            its = self.ev(gens[0].iter, s, fid)
            it0, s1 = its[0]
            if self.frame_of(it0) == "lv":
                t1 = "F%d:%d:a" % (e.lineno, e.col_offset)
                t2 = "F%d:%d:b" % (e.lineno, e.col_offset)
                s2 = self.assign(gens[0].target, self.elem_of(it0, t1), s1, fid)
                it1, s2 = self.ev(gens[1].iter, s2, fid)[0]
                if self.frame_of(it1) == "sp" and self.len_name(it1) == "lv:" + t1:
                    s3 = self.assign(gens[1].target, self.elem_of(it1, t2), s2, fid)
                    v, s3 = self.ev(e.elt, s3, fid)[0]
                    return [(("flat", t1, t2, v, "idx"), s)]
        if len(gens) != 1:
            return [(TOP, s)]
        gn = gens[0]
        for it, s1 in self.ev(gn.iter, s, fid):
            if self.is_raise(it):
                out.append((it, s1))
                continue
            if it[0] == "cols" or (it[0] == "enum" and it[1][0] == "cols"):
                # expand as loop:  acc = [] ; for x in cols: (if c:) acc.append(elt)
                key = ("acc", e.lineno, e.col_offset)
                body = [ast.Expr(e.elt)]
                for c in reversed(gn.ifs):
                    body = [ast.If(c, body, [])]
                for b in body:
                    ast.copy_location(b, e)
                    ast.fix_missing_locations(b)
                for kind, s2, p in self.iterate(it, gn.target, body, [], s1, fid, e):
                    if kind == "next":
                        filt = None
                        if len(gn.ifs) == 1 and self.calls_add(gn.ifs[0]):
                            filt = "acc"
                        out.append((("added", filt or ("vals" if self.is_add(e.elt) else
                                                       "ind" if self.is_ind(e.elt) else "?")), s2))
                    else:
                        out.append((("!raise", p), s2) if kind == "raise" else (TOP, s2))
                continue
            if self.frame_of(it) in ("lv",) and not gn.ifs:
                tag = "Z%d:%d" % (e.lineno, e.col_offset)
                s2 = self.assign(gn.target, self.elem_of(it, tag), s1, fid)
                v, s3 = self.ev(e.elt, s2, fid)[0]
                if v[0] == "L" and v[2] == "zero" and self.has_len(v[1], "lv:" + tag):
                    out.append((("L", ("i", None, (("len:levels", 0),)), "perlevel"), s1))
                else:
                    out.append((TOP, s1))
                continue
            if self.frame_of(it) == "sp" and not gn.ifs:
                tag = "Z%d:%d" % (e.lineno, e.col_offset)
                s2 = self.assign(gn.target, self.elem_of(it, tag), s1, fid)
                v, s3 = self.ev(e.elt, s2, fid)[0]
                if self.zero(v):
                    out.append((("L", ("i", None, (("len:" + self.len_name(it), 0),)), "zero"), s1))
                    continue
                if any(isinstance(x, ast.Attribute) and x.attr in ("update_subproblem", "generate_columns")
                       for x in ast.walk(e.elt)):
                    body = [ast.copy_location(ast.Expr(e.elt), e)]
                    for kind, s2, p in self.iterate(it, gn.target, body, [], s1, fid, e):
                        out.append((TOP, s2) if kind == "next" else (("!raise", p), s2))
                    continue
                out.append((TOP, s1))
                continue
            out.append((TOP, s1))
        return out

    def calls_add(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "add_column"

    def is_add(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("bool", "int") and e.args:
            return self.is_add(e.args[0])
        return self.calls_add(e)

    def is_ind(self, e):
        return isinstance(e, ast.IfExp) and self.calls_add(e.test) and isinstance(e.body, ast.Constant) and \
            e.body.value == 1 and isinstance(e.orelse, ast.Constant) and e.orelse.value == 0

    # ------------------------------------------------------------ calls
    def call(self, e, s, fid):
        self.stats["calls"] += 1
        # any(...) / sum(...) over generator with add_column
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and \
                isinstance(e.args[0], ast.GeneratorExp) and \
                any(self.calls_add(x) for x in ast.walk(e.args[0])):
            gn = e.args[0].generators[0]
            it, s1 = self.ev(gn.iter, s, fid)[0]
            stop = e.func.id == "any"
            test = e.args[0].elt if stop else ast.UnaryOp(ast.Not(), e.args[0].elt)
            body = [ast.If(test, [ast.Break()], [])]
            for b in body:
                ast.copy_location(b, e)
                ast.fix_missing_locations(b)
            out = []
            orelse = []
            for kind, s2, p in self.iterate(it, gn.target, body, orelse, s1, fid, e):
                out.append((C(bool(s2.g["acc"])) if stop else TOP, s2))
            return out
        out = []
        for f, s1 in self.ev(e.func, s, fid):
            if self.is_raise(f):
                out.append((f, s1))
                continue
            kwn = [k.arg for k in e.keywords]
            for vs, s2 in self.evs(list(e.args) + [k.value for k in e.keywords], s1, fid):
                if vs and self.is_raise(vs[-1]):
                    out.append((vs[-1], s2))
                    continue
                pos = vs[:len(e.args)]
                kw = dict(zip(kwn, vs[len(e.args):]))
                star = any(isinstance(a, ast.Starred) for a in e.args) or None in kwn
                if star:
                    np = []
                    for a, v in zip(e.args, pos):
                        if isinstance(a, ast.Starred):
                            if v[0] != "tup":
                                raise GiveUp("star argument", e)
                            np += v[1]
                        else:
                            np.append(v)
                    pos = tuple(np)
                out += self.apply(f, pos, kw, s2.copy(), e, fid)
        return list(dict.fromkeys(out))

    def inline(self, f, args, kw, s, e, closure=None):
        if self.depth > 12:
            raise GiveUp("helper calls nested too deeply", e)
        node = f.node if isinstance(f, source.Func) else f
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            raise GiveUp("generator used outside a for loop", e)
        self.depth += 1
        fid2 = self.depth
        saved = (self.cur_mod, self.cur_cls, getattr(self, "closures", {}))
        if isinstance(f, source.Func):
            self.cur_mod, self.cur_cls = f.mod, f.cls
        if closure is not None:
            self.closures = dict(saved[2])
            self.closures[fid2] = closure
        try:
            s = s.copy()
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            for k in [k for k in s.env if k[0] == fid2]:
                del s.env[k]
            dl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            for i, nme in enumerate(names):
                if i < len(args):
                    s.env[(fid2, nme)] = args[i]
                elif nme in kw:
                    s.env[(fid2, nme)] = kw[nme]
                elif nme in dl:
                    s.env[(fid2, nme)] = self.ev(dl[nme], s, fid2)[0][0]
                else:
                    raise GiveUp("missing argument %s" % nme, e)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg in kw:
                    s.env[(fid2, x.arg)] = kw[x.arg]
                elif d is not None:
                    s.env[(fid2, x.arg)] = self.ev(d, s, fid2)[0][0]
            if isinstance(node, ast.Lambda):
                res = self.ev(node.body, s, fid2)
                outs = []
                for v, s1 in res:
                    outs.append(("raise", s1, v[1]) if self.is_raise(v) else ("ret", s1, (v, node)))
            else:
                self.learn(node)
                outs = self.block(node.body, [s], fid2)
            out = []
            for kind, s1, p in outs:
                s1 = s1.copy()
                for k in [k for k in s1.env if k[0] == fid2]:
                    del s1.env[k]
                if kind == "next":
                    out.append((NONE, s1))
                elif kind == "ret":
                    out.append((p[0], s1))
                elif kind == "raise":
                    out.append((("!raise", p), s1))
            return list(dict.fromkeys(out))
        finally:
            self.depth -= 1
            self.cur_mod, self.cur_cls, self.closures = saved

    def after_fitted(self, s, e, what):
        if s.g["fitted"]:
            self.bad("C05", "%s happens after the estimator was marked fitted" % what, e)

    def argvals(self, f, pos, kw, names):
        d = dict(zip(names, pos))
        d.update(kw)
        return d

    PROTOCALL = ("update_subproblem", "generate_columns", "add_column", "solve_rmp", "solve_ip", "generate_mp",
                 "rmp_objective_improved", "fit")

    def apply(self, f, pos, kw, s, e, fid):
        k = f[0]
        if k == "meth":
            m = f[1]
            return self.inline(m, (() if m.static else (("self",),)) + pos, kw, s, e)
        if k == "superm":
            m = self.prog.method(self.cls, f[2], after=f[1])
            if m is None:
                return [(TOP, s)]
            return self.inline(m, (("self",),) + pos, kw, s, e)
        if k == "fn":
            return self.inline(f[1], pos, kw, s, e)
        if k == "clo":
            return self.inline(f[1], pos, kw, s, e, closure=f[2])
        if k == "ext":
            return self.ext(f[1], pos, kw, s, e, fid)
        if k == "mpattr":
            return self.master(f[1], pos, kw, s, e)
        if k == "spattr":
            return self.subp(f[1], f[2], pos, kw, s, e)
        if k == "encattr":
            enc, name = f[1], f[2]
            if name in ("fit", "fit_transform") and not (pos and pos[0][0] in ("ychk", "yraw")):
                s.g["encbad"] = enc[1]
            if name in ("fit_transform", "transform"):
                if pos and pos[0][0] in ("ychk", "yraw"):
                    return [(("yenc", enc[1]), s)]
                return [(TOP, s)]
            if name == "fit":
                return [(enc, s)]
            return [(TOP, s)]
        if k == "refm":
            key, name = f[1], f[2]
            if name == "append":
                L = s.heap.get(key, TOP)
                if L[0] == "L":
                    el = pos[0]
                    ok = el[0] == "L" and el[2] == "zero"
                    fr = [x for x in s.g["loops"] if x[0] == "lv"]
                    own = ok and fr and self.has_len(el[1], "lv:" + fr[-1][1])
                    lv = L[1]
                    if own and L[2] in ("empty", "perlevel"):
                        s.heap[key] = ("L", self.addint(lv, 1), "perlevel")
                    else:
                        if self.holds(el):
                            self.blur(s, "protocol object stored in a list", e)
                        s.heap[key] = TOP if not own and self.vague(el) else ("L", self.addint(lv, 1), "mixed")
                return [(NONE, s)]
            if any(self.holds(v) for v in pos):
                self.blur(s, "protocol object stored in a list", e)
            if name in ("extend", "insert", "clear", "pop", "remove"):
                s.heap[key] = TOP
                return [(TOP, s)]
            return [(TOP, s)]
        if k == "addedcount":
            if pos and pos[0] == TRUE:
                return [(("i", s.g["A"], (("A", 0),)), s)]
            return [(TOP, s)]
        if k == "cls":
            if any(self.holds(v) for v in tuple(pos) + tuple(kw.values())):
                self.blur(s, "protocol object stored in an object of another class", e)
            return [(TOP, s)]
        if k == "unk":
            o, name = f[1], f[2]
            if any(self.holds(v) for v in pos) or any(self.holds(v) for v in kw.values()) or name in self.PROTOCALL:
                self.blur(s, "call %s on an object that is not understood" % name, e)
            if o[0] in self.DATA + ("c", "i"):
                return [(FREE, s)]
            return [(TOP, s)]
        if k == "free":
            return [(FREE, s)]
        if k == "top":
            self.blur(s, "call of something that is not understood", e)
            return [(TOP, s)]
        if k == "selfattr":
            if f[1] in ("_validate_data",):
                s.g["validated"] = True
                return [(("tup", (("Xchk",), ("ychk",))), s)]
            return [(TOP, s)]
        return [(TOP, s)]

    def ext(self, name, pos, kw, s, e, fid):
        nm = name.split(".")[-1]
        if name in ("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "timeit.default_timer"):
            pre = not s.g["started"] and s.g["built"] == 0
            if pre:
                return [(("clk", "start", frozenset()), s)]
            if s.g["reset"]:
                # a restart of the training clock asked for by the master
                s.g["reset"] = False
                return [(("clk", "start", frozenset()), s)]
            return [(("clk", "r", frozenset()), s)]
        if nm == "check_X_y":
            s.g["validated"] = True
            if pos and pos[0][0] in ("Xraw", "Xchk") and (len(pos) > 1 or "y" in kw):
                return [(("tup", (("Xchk",), ("ychk",))), s)]
            return [(TOP, s)]
        if nm == "check_array" and pos and pos[0][0] == "Xraw":
            return [(("Xchk",), s)]
        if nm in ("unique_labels", "unique") and pos and pos[0][0] in ("ychk", "yraw", "yenc") and not kw:
            return [(("classes",), s)]
        if nm == "LabelEncoder":
            return [(("enc", (e.lineno, e.col_offset)), s)]
        if name == "builtins.set" and pos and pos[0][0] in ("ychk", "yraw", "yenc", "classes"):
            return [(("classes",), s)]
        if name == "builtins.len" and pos:
            v = pos[0]
            if v[0] == "classes":
                return [(("nclasses",), s)]
            if v[0] == "ref":
                h = s.heap.get(v[1], TOP)
                return [(h[1] if h[0] == "L" else TOP, s)]
            if v[0] == "added":
                if v[1] == "acc":
                    return [(("i", s.g["A"], (("A", 0),)), s)]
                return [(TOP, s)]
            n = self.len_name(v)
            if n:
                return [(("i", None, (("len:" + n, 0),)), s)]
            if v[0] == "cols":
                return [(("lenc", v[1]), s)]
            return [(TOP, s)]
        if name == "builtins.range":
            if len(pos) == 1 or (len(pos) == 2 and self.zero(pos[0])):
                v = pos[-1]
                if v[0] == "i":
                    for b, c in v[2]:
                        if b == "len:levels" and c == 0:
                            return [(("range", ("levels",)), s)]
                        if b.startswith("len:lv:") and c == 0:
                            return [(("range", ("lv", b[7:])), s)]
                if v[0] == "lenc":
                    return [(("range", ("cols", v[1])), s)]
            full = None
            for v in pos:
                if v[0] == "i":
                    for b, c in v[2]:
                        if b == "len:levels":
                            full = ("levels",)
                        elif b.startswith("len:lv:"):
                            full = ("lv", b[7:])
            if len(pos) == 3 and full is not None and pos[0][0] == "i" and pos[1] == ("i", -1, pos[1][2]) and \
                    pos[2][0] == "i" and pos[2][1] == -1 and \
                    any(b == self.lname(full) and c == -1 for b, c in pos[0][2]):
                return [(("rev", ("range", full)), s)]
            if full is not None and all(v[0] in ("i", "c") for v in pos):
                return [(("part", ("range", full)), s)]
            if all(v[0] in ("i", "c", "free") for v in pos):
                return [(("crange",), s)]
            return [(TOP, s)]
        if name == "builtins.enumerate" and pos:
            return [(("enum", pos[0]) if len(pos) == 1 and not kw else TOP, s)]
        if name == "builtins.zip" and pos:
            return [(("zip", pos), s)]
        if name in ("builtins.list", "builtins.tuple", "builtins.iter") and pos and \
                pos[0][0] in ("cols", "levels", "lv", "flat", "range", "enum", "zip", "plevels", "plv", "added"):
            return [(pos[0], s)]
        if name == "builtins.reversed":
            return [(("rev", pos[0]) if pos else TOP, s)]
        if name in ("builtins.bool",) and pos:
            return [(C(b), x) for b, x in self.truth(pos[0], s, e)]
        if name in ("builtins.int",) and pos:
            v = pos[0]
            if v[0] == "ndbool":
                return [(C(b), x) for b, x in self.truth(v, s, e)]
            if v[0] == "c" and isinstance(v[1], bool):
                return [(self.mkint(s, int(v[1])), s)]
            return [(v if v[0] == "i" else TOP, s)]
        if name == "builtins.sum" and pos:
            if pos[0][0] == "added" and pos[0][1] in ("vals", "ind"):
                return [(("i", s.g["A"], (("A", 0),)), s)]
            if pos[0][0] == "added":
                self.unsure("sum over the results of offering columns not understood", e, ("C03",))
            return [(TOP, s)]
        if name == "builtins.any" and pos and pos[0][0] == "added":
            if pos[0][1] in ("vals", "ind", "acc"):
                return [(C(s.g["A"] is None or s.g["A"] > 0), s)]
            return [(TOP, s)]
        if name in ("builtins.hasattr", "builtins.getattr") and pos and pos[0] == ("mp",):
            if nm == "getattr" and len(pos) > 1 and pos[1] == C("reset_timer_"):
                return [(("resetflag",), s)]
            return [(FREE, s)]
        if name == "builtins.getattr" and pos and pos[0] == ("self",) and pos[1][0] == "c" and \
                isinstance(pos[1][1], str):
            if pos[1][1] in s.attrs:
                return [(s.attrs[pos[1][1]], s)]
            return [(TOP, s)]
        if name == "builtins.setattr" and pos and pos[0] == ("self",) and pos[1][0] == "c":
            s.attrs[pos[1][1]] = pos[2]
            return [(NONE, s)]
        if name == "builtins.super":
            return [(("super", self.cur_cls), s)]
        if name == "builtins.abs" and pos and pos[0][0] in ("dur",):
            return [(pos[0], s)]
        if name in ("builtins.max", "builtins.min"):
            return [(TOP, s)]
        if nm == "check_is_fitted":
            return [(NONE, s)]
        if name == "builtins.len" and pos and pos[0][0] in self.DATA:
            return [(FREE, s)]
        if name not in ("builtins.print", "builtins.str", "builtins.repr", "builtins.isinstance", "builtins.type",
                        "builtins.id", "builtins.hasattr", "builtins.len", "builtins.callable", "warnings.warn",
                        "builtins.getattr"):
            for v in tuple(pos) + tuple(kw.values()):
                if self.holds(v):
                    self.blur(s, "protocol object handed to %s" % name, e)
        elif name != "builtins.getattr":
            return [(FREE, s)]
        if all(v[0] in self.DATA + ("c", "i", "clk", "el", "dur", "maxit", "tlim", "selfattr", "unk", "prm")
               for v in tuple(pos) + tuple(kw.values())):
            return [(FREE, s)]
        for v in pos:
            if v[0] == "cols" and s.g["pend"] == "cols" and name not in ("builtins.print", "builtins.len",
                                                                        "builtins.str", "builtins.repr",
                                                                        "builtins.isinstance", "builtins.type"):
                self.unsure("generated columns handed to %s" % name, e, ("C03",))
        return [(TOP, s)]

    def master(self, name, pos, kw, s, e):
        g = s.g
        maxit, tl, ip, k = self.ctx
        if name == "generate_mp":
            self.event("generate_mp")
            self.after_fitted(s, e, "building the master")
            a = self.argvals(None, pos, kw, ["X", "y"])
            if not g["validated"]:
                self.bad("C05", "the master is built before the input is validated", e)
            if k == 1:
                self.bad("C05", "the master is built although only one class is present", e)
            if g["built"]:
                self.bad("C05", "the master is built more than once", e)
            if g["solved"]:
                self.bad("C05", "the master is built after it was solved", e)
            self.xy(a.get("X"), a.get("y"), s, e, "generate_mp")
            g["built"], g["started"] = 1, True
            self.tick(s, "build")
            return [(TOP, s)]
        if name == "solve_rmp":
            self.event("solve_rmp")
            self.after_fitted(s, e, "solving the restricted master")
            g["started"] = True
            if not g["built"]:
                self.bad("C05", "the restricted master is solved before it is built", e)
            if g["ip"]:
                self.bad("C05", "the restricted master is solved after the integer master", e)
            self.col_checks(s, e)
            if g["solved"]:
                if g["upd"] != "all" and g["ask"] == "none" and not g["acc"]:
                    self.bad("C02", "the master is solved again without asking any subproblem", e)
                if self.g_opt(s):
                    self.bad("C01", "training continues although every subproblem was asked in vain", e)
                elif not g["acc"]:
                    self.bad("C02", "the master is solved again although no column was accepted", e)
                if g["imp"] is None:
                    self.bad("C07", "an iteration does not ask the master whether it improved", e)
                if g["chk"] == "over":
                    self.bad("C04", "training continues after the time limit", e)
            prm = (pos[0] if pos else kw.get("solver_params"))
            if prm is not None and prm[0] == "prm" and prm[1] != "rmp":
                self.bad("C02", "the restricted master is not solved with its own parameters", e)
            self.bump(s, "N")
            if maxit == "pos":
                if g["lo"] is not None:
                    g["lo"] += 1
                if g["hi"] is not None:
                    g["hi"] += 1
                if g["hi"] is None or g["hi"] > 0:
                    self.bad("C04", "the restricted master can be solved more often than the iteration limit "
                             "allows", e)
                    g["hi"] = 0
            g["solved"] = True
            g["upd"], g["ask"], g["acc"], g["chk"], g["imp"] = "none", "none", False, None, None
            for d in (s.env, s.attrs, s.heap):
                for kk in list(d):
                    if d[kk] == ("duals", "cur"):
                        d[kk] = ("duals", "old")
            self.tick(s, "solve")
            return [(("duals", "cur"), s)]
        if name == "rmp_objective_improved":
            self.event("improved")
            if not g["solved"]:
                self.bad("C07", "the master is asked for an improvement before it is solved", e)
                return [(FALSE, s)]
            if g["imp"] is not None:
                return [(C(g["imp"]), s)]
            a, b = s.copy(), s.copy()
            a.g["imp"], b.g["imp"] = True, False
            self.bump(a, "M")
            return [(TRUE, a), (FALSE, b)]
        if name == "add_column":
            self.event("add_column")
            self.after_fitted(s, e, "adding a column")
            v = pos[0] if pos else next(iter(kw.values()), TOP)
            if v[0] == "col":
                if g["pend"] == "offered":
                    self.bad("C03", "a generated column is offered twice", e)
                elif g["pend"] != "col":
                    self.bad("C03", "a column is offered out of order", e)
                g["pend"] = "offered"
            elif self.vague(v):
                self.unsure("value offered to the master not understood", e, ("C03",))
            else:
                self.bad("C03", "something else than a generated column is offered to the master", e)
            if g["ip"]:
                self.bad("C05", "a column is added after the integer solve", e)
            self.tick(s, "addcol")
            a, b = s.copy(), s.copy()
            a.g["acc"] = True
            self.bump(a, "A")
            if a.g["kd"] is not None:
                a.g["kd"] += 1
                if a.g["kd"] > CAP:
                    a.g["kd"] = None
            return [(TRUE, a), (FALSE, b)]
        if name == "solve_ip":
            self.event("solve_ip")
            self.after_fitted(s, e, "solving the integer master")
            if not ip:
                self.bad("C05", "the integer master is solved although the classifier does not ask for it", e)
            if g["ip"]:
                self.bad("C05", "the integer master is solved more than once", e)
            self.end_checks(s, e)
            prm = (pos[0] if pos else kw.get("solver_params"))
            if prm is not None and prm[0] == "prm" and prm[1] != "ip":
                self.bad("C05", "the integer master is not solved with its own parameters", e)
            g["ip"] = 1
            self.tick(s, "ip")
            a, b, c = s.copy(), s.copy(), s.copy()
            a.g["ipres"], b.g["ipres"], c.g["ipres"] = True, False, None
            c.g["ipres"] = False
            return [(TRUE, a), (FALSE, b), (NONE, c)]
        return [(TOP, s)]

    def xy(self, X, y, s, e, what):
        if X is None or y is None:
            return
        if self.vague(X) or self.vague(y):
            self.unsure("data handed to %s not understood" % what, e, ("C06",))
            return
        if X[0] != "Xchk":
            self.bad("C06", "%s does not receive the validated training matrix" % what, e)
        if y[0] != "yenc":
            self.bad("C06", "%s does not receive encoded labels" % what, e)
        else:
            if s.g["enc"] is not None and s.g["enc"] != y[1]:
                self.bad("C06", "labels are encoded by different encoders", e)
            s.g["enc"] = y[1]

    def subp(self, sp, name, pos, kw, s, e):
        g = s.g
        maxit, tl, ip, k = self.ctx
        if name not in ("update_subproblem", "generate_columns"):
            return [(TOP, s)]
        a = self.argvals(None, pos, kw, ["X", "y", "dual_costs", "params"])
        op = "upd" if name == "update_subproblem" else "ask"
        self.event(name)
        self.after_fitted(s, e, name)
        _, lv, st = sp
        fs = list(g["loops"])
        tags = [f[1] for f in fs]
        if not g["solved"]:
            self.bad("C05" if op == "ask" else "C02", "%s is called before the master is solved" % name, e)
        if not g["built"]:
            self.bad("C05", "%s is called before the master is built" % name, e)
        self.xy(a.get("X"), a.get("y"), s, e, name)
        d = a.get("dual_costs")
        if d is not None and d != ("duals", "cur"):
            if self.vague(d):
                self.unsure("duals handed to %s not understood" % name, e, ("C02",))
            else:
                self.bad("C02", "%s does not receive the duals of the current master solve" % name, e)
        known = lv in tags and st in tags
        if not known:
            if "?" in (lv, st):
                self.blur(s, "which subproblem %s is called for is not understood" % name, e)
            else:
                self.bad("C02", "%s is not called for each subproblem of each level in turn" % name, e)
        if g["ip"]:
            self.bad("C05", "%s is called after the integer solve" % name, e)
        self.col_checks(s, e)
        if op == "ask":
            if g["upd"] != "all":
                self.bad("C02", "a subproblem is asked for columns before every subproblem was updated exactly once "
                         "with the current duals", e)
            if g["acc"]:
                self.bad("C02", "a subproblem is asked although a column was already accepted in this iteration", e)
            if tl == "pos" and g["chk"] != "ok":
                self.bad("C04", "a subproblem is asked without a clock check since the previous solve or pricing "
                         "call" if g["chk"] is None else "a subproblem is asked after the time limit", e)
            if known:
                lvf = fs[tags.index(lv)]
                if not lvf[4]:
                    self.bad("C02", "a level is reached although a lower level was not asked completely", e)
            p = a.get("params")
            if p is not None:
                if p == ("pown", lv, st):
                    pass
                elif self.vague(p):
                    self.unsure("parameters handed to generate_columns not understood", e, ("C02",))
                else:
                    self.bad("C02", "a subproblem is asked with another subproblem's parameters", e)
            else:
                self.bad("C02", "a subproblem is asked without its parameters", e)
            g["chk"] = None
        else:
            if g["upd"] == "all":
                self.bad("C02", "a subproblem is updated more than once per master solve", e)
            if g["ask"] != "none":
                self.bad("C02", "a subproblem is updated after pricing has started", e)
        if known:
            i = tags.index(st)
            kf, tg, ua, uc, aa, ac, ops, ne = fs[i]
            if op == "upd":
                uc = min(uc + 1, 2)
                if uc > 1:
                    self.bad("C02", "a subproblem is updated more than once per master solve", e)
            else:
                ac = min(ac + 1, 2)
                if ac > 1:
                    self.bad("C02", "a subproblem is asked more than once per iteration", e)
            fs[i] = (kf, tg, ua, uc, aa, ac, ops, ne)
            g["loops"] = tuple(fs)
        if op == "ask":
            if g["ask"] == "all":
                self.bad("C02", "a subproblem is asked more than once per iteration", e)
            if g["ask"] == "none":
                g["ask"] = "some"
            g["pend"] = "cols"
            g["A"], g["kc"], g["kd"] = 0, 0, 0
            g["slot"] = (lv, st)
            self.drop_base(s, "A")
            self.tick(s, ("gen", lv, st))
            return [(("cols", (lv, st)), s)]
        self.tick(s, ("upd", lv, st))
        return [(TOP, s)]
