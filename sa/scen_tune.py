"""Scenarios for the parameter tuner."""
import itertools
import random
from fractions import Fraction

from .compare import Run
from .lib import CPCONSTS
from .term import (S, K, K0, K1, NONE, F, T, Unsup, add, sub, mul, neg, le, lt, eq, ite, land, lnot, leaves, terms, poly, subst,
                   infeasible, LENS, RECS, show)

REAL = ("real",)
SPEC = "spec:tune"


def setup(prog):
    m = home(prog, "RunningStat")
    return Run(prog, m, "code"), Run(prog, prog.mod(SPEC), "spec")


def home(prog, cls):
    for m in prog.mods.values():
        if cls in m.classes and not m.name.startswith("spec"):
            return m
    from .source import Broken
    raise Broken("class %s not found" % cls)


XS = [S("x%d" % i, REAL) for i in range(6)]
QUERIES = ("num_data_values", "mean", "variance")


def histories(n):
    for k in range(n + 1):
        for h in itertools.product("pc", repeat=k):
            yield "".join(h)


def stat(prog, n=5):
    """Every sequence of at most n pushes and clears."""
    A, B = setup(prog)
    for h in histories(n):
        a, b = A.new("RunningStat"), B.new("Values")
        for k, step in enumerate(h):
            for R, o in ((A, a), (B, b)):
                if step == "p":
                    R.call(o, "push", XS[k])
                else:
                    R.call(o, "clear")
        for q in QUERIES:
            if q == "mean" and not h.endswith("p"):
                continue
            A.ob("%s after %s" % (q, h or "nothing"), A.call(a, q))
            B.ob("%s after %s" % (q, h or "nothing"), B.call(b, q))
        if len(h) < 4:
            A.ob("standard_deviation after %s" % (h or "nothing"), A.call(a, "standard_deviation"))
            B.ob("standard_deviation after %s" % (h or "nothing"), B.func("step", B.call(b, "variance")))
    return A, B


def instances(seed):
    r = random.Random(seed)
    d = {"x%d" % i: Fraction(r.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3, 5]), r.choice([1, 1, 2])) for i in range(6)}
    d.update(limit=Fraction(r.randint(1, 5)), budget=r.choice([0, 0, 1, 2, 7]), flag=r.choice([0, 1, 1, 2, 3]))
    low = r.choice([[0, 1, 2, 3], [4, 5, 6], [0, 1, 3, 4, 5, 6], [3, 4], [9, 24, 60, 1200]])
    for j in range(4):
        d["count%d" % j] = r.choice(low)
        d["final%d" % j] = Fraction(r.choice([-4, -2, -1, 0, 1, 2, 5]), 2)
    yield d


# ------------------------------------------------------------------ the inductive argument
N, SUM, SQ, NEXT = S("n", ("int", 2, None)), S("sum", REAL), S("squares", REAL), S("next", REAL)


def ratio(t):
    """(numerator, denominator) of a term without conditions."""
    num, den = K0, K1
    for m, c in terms(t).items():
        a, b = K(c), K1
        for x in m:
            if x.op == "f" and x.a[0] == "div":
                p, q = ratio(x.a[1])
                r, s = ratio(x.a[2])
                a, b = mul(mul(a, p), s), mul(mul(b, q), r)
            else:
                a = mul(a, x)
        num, den = add(mul(num, b), mul(a, den)), mul(den, b)
    return num, den


def same(a, b):
    """Whether two terms are equal as functions of the pushed values (denominators that vanish nowhere cancel)."""
    for c1, x in leaves(a):
        for c2, y in leaves(b):
            g = land(c1, c2)
            if g is K0 or infeasible(g):
                continue
            (p, q), (r, s) = ratio(x), ratio(y)
            if q is K0 or s is K0 or sub(mul(p, s), mul(r, q)) is not K0:
                return False
    return True


def div(a, b):
    return F("div", a, b)


SHAPES = {
    "count": lambda n, s, q, x: n,
    "count - 1": lambda n, s, q, x: sub(n, K1),
    "last": lambda n, s, q, x: x,
    "sum": lambda n, s, q, x: s,
    "squares": lambda n, s, q, x: q,
    "mean": lambda n, s, q, x: div(s, n),
    "mean of squares": lambda n, s, q, x: div(q, n),
    "deviations": lambda n, s, q, x: sub(q, div(mul(s, s), n)),
    "mean deviation": lambda n, s, q, x: div(sub(q, div(mul(s, s), n)), n),
    "zero": lambda n, s, q, x: K0,
    "one": lambda n, s, q, x: K1,
}


def attributes(R, o):
    out = {}
    for key in R.I.cells:
        if key[0] == "attr" and key[1] == o.a[1]:
            out[key[2]] = R.I.getattr_cell(o, key[2])
    return out


def inductive(prog):
    """Proof that the statistics are exact after any history: {obligation: None or why not}, invariant."""
    out = {}
    # what each attribute is after two and three pushes, from the start and after a clear at any moment
    shapes = None
    names = set()

    def dirty(R, o, tag):
        for n in attributes(R, o):
            R.I.set_attr(o, n, S("any_%s_%s" % (n, tag), REAL))
    for start in ("new", "cleared"):
        A, _ = setup(prog)
        o = A.new("RunningStat")
        for n, v in attributes(A, o).items():
            if not (v.op == "k" or v.op in ("p", "s")):
                raise Unsup("attribute %s is not a number" % n)
        if start == "cleared":
            dirty(A, o, "c")
            A.call(o, "clear")
        s = q = K0
        for k in range(3):
            x = XS[k]
            s, q = add(s, x), add(q, mul(x, x))
            A.call(o, "push", x)
            at = attributes(A, o)
            names |= set(at)
            if k == 0:
                for qn, w in (("num_data_values", K1), ("mean", x), ("variance", K0)):
                    out["%s of one value, %s" % (qn, start)] = None if same(A.call(o, qn), w) else "wrong"
                continue
            if shapes is None:
                shapes = {n: set(SHAPES) for n in at}
            for n, v in at.items():
                shapes[n] = {z for z in shapes.get(n, ()) if same(v, SHAPES[z](K(k + 1), s, q, x))}
    # the invariant is kept by one more push
    while True:
        A, _ = setup(prog)
        o = A.new("RunningStat")
        last = S("last", REAL)
        for n in names:
            z = sorted(shapes.get(n, ()))
            A.I.set_attr(o, n, SHAPES[z[0]](N, SUM, SQ, last) if z else S("any_" + n, REAL))
        A.call(o, "push", NEXT)
        at = attributes(A, o)
        broken = [(n, sorted(shapes[n])[0]) for n in names if shapes.get(n) and not same(
            at[n], SHAPES[sorted(shapes[n])[0]](add(N, K1), add(SUM, NEXT), add(SQ, mul(NEXT, NEXT)), NEXT))]
        if not broken:
            break
        for n, z in broken:
            shapes[n].discard(z)
    inv = {n: (sorted(z)[0] if z else None) for n, z in shapes.items()}
    # and determines the answers
    A, _ = setup(prog)
    o = A.new("RunningStat")
    for n in names:
        A.I.set_attr(o, n, SHAPES[inv[n]](N, SUM, SQ, S("last", REAL)) if inv[n] else S("any_" + n, REAL))
    dev = sub(SQ, div(mul(SUM, SUM), N))
    want = {"num_data_values": N, "mean": div(SUM, N), "variance": div(dev, sub(N, K1))}
    for qn, w in want.items():
        out[qn] = None if same(A.call(o, qn), w) else "not determined by the invariant %s" % inv
    v = A.call(o, "variance")
    out["standard_deviation"] = None if A.call(o, "standard_deviation") is leafwise(v) else "not the square root of the variance"
    # a cleared statistic has no values
    A, _ = setup(prog)
    o = A.new("RunningStat")
    dirty(A, o, "d")
    A.call(o, "clear")
    for qn in ("num_data_values", "variance"):
        out[qn + " after clear"] = None if same(A.call(o, qn), K0) else "not zero"
    return out, inv


def leafwise(v):
    from .term import apply
    return apply(lambda x: F("sqrt", x), v)


# ------------------------------------------------------------------ parameters
SCORE, FAC = S("score", REAL), S("c_fac", REAL)
BUDGET = S("budget", ("int", 0, None))


def parameter(prog, n):
    """A parameter with n values in any state: (run, reference run, parameter, counts, final scores, numbers, means)."""
    A, B = setup(prog)
    A.I.folds = True
    p = A.new("Parameter", FAC, K("a parameter"), K1)
    values = [K("value %d" % j) for j in range(n)]
    for v in values:
        A.call(p, "add_value", v)
    A.call(p, "set_explore_count", BUDGET)
    A.call(p, "set_switch_flag", S("flag", ("int", 0, None)))
    counts = [S("count%d" % j, ("int", 0, None)) for j in range(n)]
    finals = [S("final%d" % j, REAL) for j in range(n)]
    A.I.set_attr(p, "counts_", A.lst(*counts))
    A.I.set_attr(p, "final_scores_", A.lst(*finals))
    for j in range(n):
        st = A.I.get_item(A.attr(p, "scores_"), K(j))
        for name, v in attributes(A, st).items():
            A.I.set_attr(st, name, counts[j] if name == "num_data_" else S("%s%d" % (name, j), REAL))
    return A, B, p, values, counts, finals


def stats(A, p, n):
    return [[A.call(A.I.get_item(A.attr(p, "scores_"), K(j)), q) for q in ("num_data_values", "mean")] for j in range(n)]


def repeated(n):
    """Two proposals, then two scores: both belong to the second proposal."""
    def run(prog):
        A, B, p, values, counts, finals = parameter(prog, n)
        before = stats(A, p, n)
        A.call(p, "get_best_value")
        v = A.call(p, "get_best_value")
        A.ob("remaining budget", A.attr(p, "explore_count_"))
        left = ite(lt(K0, BUDGET), sub(BUDGET, K1), BUDGET)
        B.ob("remaining budget", ite(lt(K0, left), sub(left, K1), left))
        A.call(p, "adjust_score", SCORE)
        A.call(p, "adjust_score", S("score2", REAL))
        after = stats(A, p, n)
        for j in range(n):
            h = eq(v, values[j])
            A.ob("count of value %d" % j, A.I.get_item(A.attr(p, "counts_"), K(j)))
            B.ob("count of value %d" % j, add(counts[j], add(h, h)))
            A.ob("number of scores of value %d" % j, after[j][0])
            B.ob("number of scores of value %d" % j, add(before[j][0], add(h, h)))
        return A, B
    return run


def credit(n, index=None):
    """One proposal followed by one score."""
    def run(prog):
        A, B, p, values, counts, finals = parameter(prog, n)
        before = stats(A, p, n)
        v = A.call(p, "get_best_value")
        A.ob("remaining budget", A.attr(p, "explore_count_"))
        B.ob("remaining budget", ite(lt(K0, BUDGET), sub(BUDGET, K1), BUDGET))
        hit = [eq(v, x) for x in values]
        tot = K0
        for h in hit:
            tot = add(tot, h)
        A.ob("the proposal is a registered value", tot)
        B.ob("the proposal is a registered value", K1)
        if index is None:
            A.call(p, "adjust_score", SCORE)
        else:
            A.call(p, "adjust_score", SCORE, K(index))
            hit = [K1 if j == index else K0 for j in range(n)]
        after = stats(A, p, n)
        for j in range(n):
            A.ob("count of value %d" % j, A.I.get_item(A.attr(p, "counts_"), K(j)))
            B.ob("count of value %d" % j, add(counts[j], hit[j]))
            A.ob("number of scores of value %d" % j, after[j][0])
            B.ob("number of scores of value %d" % j, add(before[j][0], hit[j]))
            A.ob("mean score of value %d when not credited" % j, ite(hit[j], K0, after[j][1]))
            B.ob("mean score of value %d when not credited" % j, ite(hit[j], K0, before[j][1]))
            A.ob("final score of value %d" % j, A.I.get_item(A.attr(p, "final_scores_"), K(j)))
            B.ob("final score of value %d" % j, ite(hit[j], add(after[j][1], F("div", FAC, add(counts[j], K1))), finals[j]))
        return A, B
    return run


# ------------------------------------------------------------------ tuned solves
def solve_instances(seed):
    r = random.Random(seed)
    d = dict(limit=Fraction(r.randint(1, 5)))
    for k in range(1, 4):
        d["status%d" % k] = r.choice([0, 1, 2, 2, 2, 3, 4, 4])
        d["wall%d" % k] = Fraction(r.randint(0, 20), 4)
        small = r.choice([2, 2, 20])
        d["objective%d" % k] = Fraction(r.randint(-6, 6), small)
        d["bound%d" % k] = Fraction(r.randint(-6, 6), small)
    yield d


LIMIT = S("limit", ("int", 1, None))


def tuned(rounds):
    """Consecutive pricing solves of one subproblem."""
    def run(prog):
        m = home(prog, "BaseSubproblem")
        A, B = Run(prog, m, "code"), Run(prog, prog.mod(SPEC), "spec")
        A.I.folds = True
        I = A.I

        def outcome(what, ty):
            def read(s, *a):
                return S("%s%d" % (what, I.sget(s, "epoch").a[0]), ty)
            return read
        I.m_cpsolver_WallTime = outcome("wall", ("real", 0, None))
        I.m_cpsolver_ObjectiveValue = outcome("objective", REAL)
        I.m_cpsolver_BestObjectiveBound = outcome("bound", REAL)

        def run_solver(s, model, callback=NONE):
            I.cp_solve(s, model, callback)
            return S("status%d" % len(I.solves), ("int", 0, 4))
        I.m_cpsolver_Solve = I.m_cpsolver_SolveWithSolutionCallback = I.m_cpsolver_solve = run_solver

        def propose(I, args, kw):
            k = add(I.getattr_cell(args[0], "ghost_proposals"), K1)
            I.setattr_cell(args[0], "ghost_proposals", k)
            return F("proposal", args[0], k)

        def score(I, args, kw):
            d = dict(zip(("score", "index"), args[1:]), **kw)
            if d.get("index", NONE) is not NONE:
                raise Unsup("score with an index")
            I.setattr_cell(args[0], "ghost_scores", add(I.getattr_cell(args[0], "ghost_scores"), K1))
            I.setattr_cell(args[0], "ghost_score", d["score"])
            return NONE
        I.stubs["Parameter.get_best_value"] = propose
        I.stubs["Parameter.adjust_score"] = score
        p = A.new("BaseSubproblem")
        table = A.attr(p, "tunable_params_")
        names = tunables(I, table)
        params = {n: I.get_item(table, K(n)) for n in names}
        for q in params.values():
            for g in ("ghost_proposals", "ghost_scores", "ghost_score"):
                I.setattr_cell(q, g, K0)
        solver = A.attr(p, "cp_solver_")
        walls, gaps = [], []
        for k in range(1, rounds + 1):
            model = I.more_ext("cp_model.CpModel", "CpModel", [], {})
            done = len(I.solves)
            A.call(p, "solve_model", model, LIMIT)
            A.ob("solver runs of round %d" % k, K(len(I.solves) - done))
            B.ob("solver runs of round %d" % k, K1)
            if len(I.solves) == done:
                continue
            snap = I.solves[-1]
            n = snap["n"]
            A.ob("round %d solves the given model" % k, K1 if snap["src"] is model and snap["solver"] is solver else K0)
            B.ob("round %d solves the given model" % k, K1)
            sp = I.ref_attr(solver, "parameters")

            def at(name):
                return snap["cells"].get(("attr", sp.a[1], name), K("not set"))
            A.ob("time limit of round %d" % k, at("max_time_in_seconds"))
            B.ob("time limit of round %d" % k, LIMIT)
            wall, status = S("wall%d" % n.a[0], ("real", 0, None)), S("status%d" % n.a[0], ("int", 0, 4))
            z = B.func("scores", eq(status, CPCONSTS["OPTIMAL"]), eq(status, CPCONSTS["FEASIBLE"]), wall, LIMIT,
                       S("objective%d" % n.a[0], REAL), S("bound%d" % n.a[0], REAL))
            t, g = B.I.get_item(z, K0), B.I.get_item(z, K1)
            walls.append(wall)
            gaps.append(g)
            for name, q in params.items():
                w = "%s in round %d" % (name, k)
                A.ob(w, at(name))
                B.ob(w, F("proposal", q, K(k)))
                A.ob("proposals of " + w, I.getattr_cell(q, "ghost_proposals"))
                B.ob("proposals of " + w, K(k))
                A.ob("scores of " + w, I.getattr_cell(q, "ghost_scores"))
                B.ob("scores of " + w, K(k))
                A.ob("score of " + w, I.getattr_cell(q, "ghost_score"))
                B.ob("score of " + w, neg(add(t, g)))
            A.ob("recorded times after round %d" % k, A.attr(p, "solve_times_"))
            B.ob("recorded times after round %d" % k, B.lst(*walls))
            A.ob("recorded gaps after round %d" % k, A.attr(p, "gaps_"))
            B.ob("recorded gaps after round %d" % k, B.lst(*gaps))
        I.solves.clear()
        return A, B
    return run


def tunables(I, table):
    """The keys of the table of tunable parameters."""
    out = []
    I.iterate(table, lambda k: out.append(k))
    if not out or any(k.op != "k" or not isinstance(k.a[0], str) for k in out):
        raise Unsup("names of the tunable parameters")
    return [k.a[0][1:] for k in out]


def through_tuner(prog):
    """The CP-SAT pricing problem is solved by BaseSubproblem.solve_model only."""
    from . import scen_dt as sd
    A, B = sd.setup(prog)
    A.I.records = sd.PATHREC
    calls = []

    def solve(I, args, kw):
        names = ("model", "time_limit", "callback")
        d = dict(zip(names, args[1:]), **kw)
        calls.append(I.pc)
        I.cp_solve(None, d["model"], d.get("callback", NONE))
        return NONE
    A.I.stubs["BaseSubproblem.solve_model"] = solve
    m = A.new("DTreeSubProblemSat", sd.LEAF, sd.NODES, sd.SPLITS, sd.targets(A), sd.DEPTH, sd.NONE)
    duals = A.tup(*([sd.LD, sd.RD, sd.ND][k][0] for k in range(3)), *sd.cut_pattern((0,), A)[0])
    for k in (1, 2):
        n, c = len(A.I.solves), len(calls)
        A.call(m, "update_subproblem", sd.X, sd.Y, duals)
        A.call(m, "generate_columns", sd.X, sd.Y, duals)
        A.ob("untuned solver runs of round %d" % k, K(len(A.I.solves) - n - (len(calls) - c)))
        B.ob("untuned solver runs of round %d" % k, K0)
        A.ob("tuned solver runs of round %d" % k, K(len(calls) - c))
        B.ob("tuned solver runs of round %d" % k, K1)
    A.I.solves.clear()
    A.I.events.clear()
    return A, B
