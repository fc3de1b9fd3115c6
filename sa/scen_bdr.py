"""Scenarios and reference comparison for rule learning (B01-B08)."""
import ast
import os
import random
from fractions import Fraction

from . import source
from .compare import Run, Cmp
from .term import S, K, K0, K1, LENS, F, T, TY, lnot, eq, land, lor, truth

REAL = ("real",)
DUAL = ("real", 0, None)
X = S("X", ("arr2", REAL))
Y = S("y", ("arr", ("int", 0, 1)))
LENS[Y] = F("len", X)
CL = ("list", ("int", 0, None), ("distinct", "nonempty"))
C1, C2 = S("clause1", CL), S("clause2", CL)
C, P = S("C", ("int", 0, None)), S("p", REAL)


def instances(seed):
    r = random.Random(seed)
    n, d = r.randint(1, 4), r.choice([1, 2, 3, 3, 4, 5])
    x = [[r.choice([0, 0, 1, 1, Fraction(1, 2), -1]) for _ in range(d)] for _ in range(n)]
    y = [r.randint(0, 1) for _ in range(n)]
    npos = sum(y)

    def clause():
        return sorted(r.sample(range(d), r.randint(1, d)))
    duals = [Fraction(r.choice([0, 0, 1, 2, Fraction(1, 2), Fraction(4, 3), 3])) for _ in range(npos)]
    duals2 = [Fraction(r.choice([0, 0, 1, 2, Fraction(1, 2), Fraction(4, 3), 3])) for _ in range(npos)]
    n0, d0 = r.randint(1, 3), r.randint(d, max(d, 3))
    same = r.random() < .4
    if same:
        n0, d0 = n, d
    x0 = [[r.choice([0, 1]) for _ in range(d0)] for _ in range(n0)]
    c = r.randint(0, 5)
    yield dict(X0=x0, y0=[r.randint(0, 1) for _ in range(n0)], yi=[r.randint(0, 2) for _ in range(n)], C0=c if same else r.randint(0, 5), p0=Fraction(r.choice([1, 3])),
               rules=[clause() if r.random() < .8 else [] for _ in range(r.randint(0, 2))], X=x, y=y, clause1=clause(), clause2=clause(), C=c, D=r.randint(1, d), K=r.randint(0, d),
               p=Fraction(r.choice([1, 2, 5])), cs1=duals, cs2=duals2,
               cc1=Fraction(r.choice([0, 1, 2, Fraction(1, 2), Fraction(1, 3)])), cc2=Fraction(r.choice([0, 1, 2, Fraction(1, 2), Fraction(1, 3)])))


def setup(prog):
    return Run(prog, prog.mod("bdr"), "code"), Run(prog, prog.mod("spec:bdr"), "spec")


def new_master(A, B, y=Y):
    m = A.new("BDRMasterProblem", C, P, K("glop"))
    A.call(m, "generate_mp", X, y)
    return m, B.new("Master", C, P, X, y)


def master(prog):
    """Initial model, two different columns, LP solve, two integer solves."""
    A, B = setup(prog)
    for R in (A, B):
        R.assume(lnot(eq(C1, C2)))
    m, s = new_master(A, B)
    A.ob("added: first", A.call(m, "add_column", C1))
    A.ob("added: second", A.call(m, "add_column", C2))
    A.cond("valid columns are accepted")
    A.ob("duals", A.call(m, "solve_rmp"))
    A.cond("LP solve raises nothing")
    A.call(m, "solve_ip")
    A.cond("integer solve: error condition")
    A.ob("rules", A.attr(m, "explanation"), bag=True)
    A.call(m, "solve_ip")
    A.ob("rules after a second integer solve", A.attr(m, "explanation"), bag=True)
    B.call(s, "add", C1)
    B.call(s, "add", C2)
    B.ob("added: first", K1)
    B.ob("added: second", K1)
    B.cond("valid columns are accepted")
    B.ob("duals", B.call(s, "lp"))
    B.cond("LP solve raises nothing")
    r = B.call(s, "ip")
    B.cond("integer solve: error condition")
    B.ob("rules", r, bag=True)
    B.ob("rules after a second integer solve", B.call(s, "ip"), bag=True)
    return A, B


def refusals(prog):
    """An empty and a repeated clause."""
    A, B = setup(prog)
    m, s = new_master(A, B)
    A.ob("empty clause", truth(A.call(m, "add_column", A.lst())))
    A.cond("empty clause raises nothing")
    A.ob("added: first", A.call(m, "add_column", C1))
    r = A.call(m, "add_column", C1)
    A.obs["repeated clause accepted"] = (land(A.I.pc, truth(r)), K1)
    B.ob("empty clause", K0)
    B.cond("empty clause raises nothing")
    B.ob("added: first", K1)
    B.obs["repeated clause accepted"] = (K0, K1)
    return A, B


def repeats(prog):
    """A clause repeated after others, and the one of the initial model's kind."""
    A, B = setup(prog)
    for R in (A, B):
        R.assume(lnot(eq(C1, C2)))
    m, s = new_master(A, B)
    A.call(m, "add_column", C1)
    A.call(m, "add_column", C2)
    A.cond("valid columns are accepted")
    pc, exc = A.I.pc, A.I.exc
    r = A.call(m, "add_column", C1)
    A.obs["earlier clause accepted"] = (land(A.I.pc, truth(r)), K1)
    B.cond("valid columns are accepted")
    B.obs["earlier clause accepted"] = (K0, K1)
    return A, B


def master_between(prog):
    """An integer solve, one more clause, another integer solve."""
    A, B = setup(prog)
    for R in (A, B):
        R.assume(lnot(eq(C1, C2)))
    m, s = new_master(A, B)
    A.call(m, "add_column", C1)
    B.call(s, "add", C1)
    A.cond("valid columns are accepted")
    B.cond("valid columns are accepted")
    A.call(m, "solve_ip")
    r = B.call(s, "ip")
    A.ob("rules", A.attr(m, "explanation"), bag=True)
    B.ob("rules", r, bag=True)
    A.cond("integer solve: error condition")
    B.cond("integer solve: error condition")
    A.call(m, "add_column", C2)
    B.call(s, "add", C2)
    A.call(m, "solve_ip")
    r = B.call(s, "ip")
    A.ob("rules after a clause was added", A.attr(m, "explanation"), bag=True)
    B.ob("rules after a clause was added", r, bag=True)
    A.obs["copy of the current model"] = (lnot(lor(K0, *A.I.old_copies)), K1)
    B.obs["copy of the current model"] = (K1, K1)
    return A, B


def empty_changes_nothing(prog):
    A, B = Run(prog, prog.mod("bdr"), "code"), Run(prog, prog.mod("bdr"), "spec")
    for R in (A, B):
        m = R.new("BDRMasterProblem", C, P, K("glop"))
        R.call(m, "generate_mp", X, Y)
        if R is A:
            R.call(m, "add_column", R.lst())
        R.call(m, "add_column", C1)
        R.call(m, "solve_rmp")
        R.call(m, "solve_ip")
        R.ob("rules", R.attr(m, "explanation"), bag=True)
    return A, B


def pricing(prog):
    """Two pricing rounds of the same subproblem."""
    A, B = setup(prog)
    D = S("D", ("int", 0, None))
    duals = [(S("cc" + k, DUAL), S("cs" + k, ("list", DUAL, ()))) for k in "12"]
    m = A.new("BDRSubProblem", D, K("cbc"))
    for k, (cc, cs) in enumerate(duals):
        A.ob("columns of round %d" % (k + 1), A.call(m, "generate_columns", X, Y, A.tup(cc, cs)))
        A.cond("error condition of round %d" % (k + 1))
    m = B.new("Pricing", D, X, Y)
    for k, (cc, cs) in enumerate(duals):
        B.ob("columns of round %d" % (k + 1), B.call(m, "price", cc, cs))
        B.cond("error condition of round %d" % (k + 1))
    return A, B


def heuristic(prog):
    A, B = setup(prog)
    k = S("K", ("int", 0, None))
    cc, cs = S("cc1", DUAL), S("cs1", ("list", DUAL, ()))
    m = A.new("BDRHeuristic", k)
    A.ob("clauses", A.call(m, "generate_columns", X, Y, A.tup(cc, cs)), bag=True)
    B.ob("clauses", B.func("heuristic", k, X, Y, cc, cs), bag=True)
    return A, B


CLASSIFIERS = ("BooleanDecisionRuleClassifier", "BooleanDecisionRuleClassifierWithHeuristic")
RULES = S("rules", ("list", ("list", ("int", 0, None), ("distinct",)), ()))


def encoder_attr(prog):
    return "label_encoder_"


def predict(which):
    def run(prog):
        A, B = setup(prog)
        clf = A.new(which)
        mp = A.attr(clf, "master_problem")
        A.I.set_attr(mp, "explanation", RULES)
        le = A.I.alloc("labelenc")
        A.I.set_attr(clf, encoder_attr(prog), le)
        A.ob("prediction", A.call(clf, "predict", X))
        A.obs["asks whether the model is fitted"] = (fitted(A, clf), K1)
        B.obs["asks whether the model is fitted"] = (K1, K1)
        B.ob("prediction", B.tup(K("decoded"), B.func("predict", X, RULES)))
        return A, B
    return run


def fitted(A, clf):
    g = K0
    for kind, bs, gg, d in A.I.events:
        if kind == "fittedcheck" and d[0] is clf:
            g = lor(g, gg)
    return g


YI = S("yi", ("arr", ("int", 0, None)))
LENS[YI] = F("len", X)


def many_classes(prog):
    A, B = setup(prog)
    m = A.new("BDRMasterProblem", C, P, K("glop"))
    from .term import Exists, fresh, gt, Unsup
    i = fresh(("R", F("len", X)))
    bad = Exists(i, ("R", F("len", X)), gt(F("sel", YI, i), K1))
    try:
        A.call(m, "generate_mp", X, YI)
        A.cond("accepted labels")
    except Unsup:
        # unsupported labels have left by then, the rest is decided with 0/1 labels
        if land(A.I.pc, bad) is not K0:
            raise
        A.obs["accepted labels"] = (lnot(bad), K1)
    A.raised("ValueError", ("ValueError",))
    built = K0
    for kind, bs, g, d in A.I.events:
        if kind in ("newvar", "newcons"):
            for b, dom in reversed(bs):
                g = Exists(b, dom, g)
            built = lor(built, land(g, bad))
    A.obs["model built for unsupported labels"] = (built, K1)
    B.obs["ValueError"] = (bad, K1)
    B.obs["accepted labels"] = (lnot(bad), K1)
    B.obs["model built for unsupported labels"] = (K0, K1)
    return A, B


def model_resets(prog, which):
    """Methods called by the general training loop that replace the models of the estimator."""
    import ast
    from .term import Unsup
    cls = prog.cls(which)
    todo = [prog.method(prog.cls("ColGenClassifier"), "fit")]
    seen, out = set(todo), []

    def assigns(f, seen):
        if f is None or f in seen:
            return False
        seen.add(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in ("master_problem", "subproblems"):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == "self" and assigns(prog.method(cls, n.func.attr), seen):
                return True
        return False
    while todo:
        f = todo.pop()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in ("master_problem", "subproblems"):
                raise Unsup("the training loop replaces the models")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == "self":
                g = prog.method(cls, n.func.attr)
                if assigns(g, set()):
                    if n.args or n.keywords:
                        raise Unsup("the training loop replaces the models")
                    if n.func.attr not in out:
                        out.append(n.func.attr)
    return out


def results_of_fit(prog):
    """Attributes that the training loop leaves on the estimator."""
    out = {}
    for n in ast.walk(prog.method(prog.cls("ColGenClassifier"), "fit").node):
        for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []):
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr not in ("master_problem", "subproblems"):
                true = isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is True
                out[t.attr] = K1 if true and t.attr not in out else S("left in " + t.attr, ("any",))
    return out


def training(which):
    """Hyperparameters changed after construction, then two training runs on different data."""
    def run(prog):
        A, B = Run(prog, prog.mod("bdr"), "code"), Run(prog, prog.mod("bdr"), "spec")
        c0, p0, c1, p1 = S("C0", ("int", 0, None)), S("p0", REAL), C, P
        y0 = S("y0", ("arr", ("int", 0, 1)))
        x0 = S("X0", ("arr2", REAL))
        LENS[y0] = F("len", x0)
        cc, cs = S("cc1", DUAL), S("cs1", ("list", DUAL, ()))
        LENS.setdefault(cs, None)
        prog.method(prog.cls(which), "fit")

        resets = model_resets(prog, which)
        left = results_of_fit(prog)

        def training_loop(R):
            def base_fit(I, args, kw):
                me, x, y = args
                for name in resets:
                    R.call(me, name)
                m = R.attr(me, "master_problem")
                R.call(m, "generate_mp", x, y)
                R.call(m, "add_column", C1)
                sub = R.I.get_item(R.I.get_item(R.attr(me, "subproblems"), K(-1)), K0)
                R.call(m, "solve_rmp")
                R.ob("columns", R.call(sub, "generate_columns", x, y, R.tup(cc, cs)))
                R.call(m, "solve_ip")
                R.ob("rules", R.attr(m, "explanation"), bag=True)
                for name, v in left.items():
                    R.I.set_attr(me, name, v)
                return me
            R.I.stubs["ColGenClassifier.fit"] = base_fit
        training_loop(A)
        training_loop(B)
        clf = A.new(which, C=c0, p=p0)
        A.call(clf, "fit", x0, y0)
        A.I.set_attr(clf, "C", c1)
        A.I.set_attr(clf, "p", p1)
        A.ob("fit returns the estimator", eq(A.call(clf, "fit", X, Y), clf))
        # two unrelated estimators that had these parameters from the start
        B.call(B.new(which, C=c0, p=p0), "fit", x0, y0)
        B.I.__dict__.pop("consts_", None)      # nothing shared, as in a new process
        B.call(B.new(which, C=c1, p=p1), "fit", X, Y)
        B.ob("fit returns the estimator", K1)
        return A, B
    return run
