"""Estimator interface: kept constructor arguments (C08) and untouched argument lists (C10)."""
import ast

from . import source
from .compare import Run
from .scen_dt import (PATHS, LEAVES, NODES, SPLITS0, ROWS, ANYTARGETS, PATH, X, Y, LEAF, DEPTH, BOOL, setup, duals, instances, targets)
from .term import S, K, K0, K1, NONE, F, T, LENS, eq, leaves, infeasible, show, Unsup, typeof

SIZED = ("list", ("list", ("any",), ()), ())


def estimators(prog):
    """(module, class) of every class derived from the training class, and that class."""
    out = []
    for m in prog.mods.values():
        if m.name.startswith("spec"):
            continue
        for c in m.classes.values():
            if any(b.name == "ColGenClassifier" for b in prog.mro(c)):
                out.append(c)
    return out


def value_type(node):
    """Type of a constructor argument from its default (numbers and strings are left open: conversions make other objects)."""
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            return BOOL
    if isinstance(node, ast.List):
        return SIZED
    return ("any",)


KNOWN = {"initial_paths": PATHS, "leaves": LEAVES, "nodes": NODES, "splits": SPLITS0, "data_rows": ROWS, "targets": ANYTARGETS}


def kept(name):
    """After construction every argument is an attribute."""
    def run(prog):
        c = prog.cls(name)
        A, B = Run(prog, c.mod, "code"), Run(prog, prog.mod("spec:dt"), "spec")
        A.I.soft_asserts = True
        for e in problem_classes(prog):
            A.I.stubs[e.name + ".__init__"] = lambda I, a, kw: NONE
        a = prog.method(c, "__init__").node.args
        names = [x.arg for x in a.args][1:] + [x.arg for x in a.kwonlyargs]
        defs = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        tree = "initial_paths" in names
        args = {n: KNOWN[n] if tree and n in KNOWN else S("%s.%s" % (name, n), value_type(defs.get(n))) for n in names}
        clf = A.new(name, **args)
        for n, v in args.items():
            got = A.I.get_attr(clf, n)
            if isinstance(got, T) and A.I.is_ref(got):
                got = K("a new object")
            if not isinstance(got, T):
                raise Unsup("attribute " + n)
            A.obs[n], B.obs[n] = (got, K1), (v, K1)
        return A, B
    return run


def problem_classes(prog):
    out = []
    for m in prog.mods.values():
        if not m.name.startswith("spec"):
            for c in m.classes.values():
                if any(b.name in ("BaseMasterProblem", "BaseSubproblem") for b in prog.mro(c)):
                    out.append(c)
    return out


# ------------------------------------------------------------------ C10
def handed(prog):
    """(problem class, constructor argument) pairs that receive a list of the caller itself, not a copy."""
    from . import scen_dt as sc
    out = set()
    for old in (K0, K1):
        A, _ = setup(prog)
        for c in sc.KINDS:
            def init(I, args, kw, c=c):
                for n, v in sc.bound(prog, I, c, args, kw).items():
                    if isinstance(v, T) and v in LISTS:
                        out.add((c, n))
                return NONE
            A.I.stubs[c + ".__init__"] = init
        A.new("DTreeClassifier", PATHS, LEAVES, NODES, SPLITS0, DEPTH, ANYTARGETS, data_rows=ROWS, use_old_sp=old)
    return out


LISTS = {PATHS: "initial_paths", LEAVES: "leaves", NODES: "nodes", SPLITS0: "splits", ROWS: "data_rows", ANYTARGETS: "targets"}
PARAM = {"initial_paths": PATHS, "leaves": LEAVES, "nodes": NODES, "splits": None, "data_rows": ROWS, "targets": ANYTARGETS}


def drives(prog):
    """Training steps: (title, where, function(run) -> {list: name})."""
    from . import scen_dt as sc
    given = handed(prog)

    def master(A):
        clf = A.new("DTreeClassifier", PATHS, LEAVES, NODES, SPLITS0, DEPTH, ANYTARGETS, data_rows=ROWS,
                    master_beta_constraints_as_cuts=sc.BETA, num_master_cuts_round=K0)
        return A.attr(clf, "master_problem")

    def build(A):
        m = master(A)
        A.call(m, "generate_mp", X, Y)
        A.call(m, "add_column", PATH)
        A.call(m, "solve_rmp")
        A.call(m, "solve_ip")

    def rows(A):
        m = master(A)
        A.call(m, "generate_mp", X, Y)
        A.call(m, "add_column", PATH)
        A.call(m, "solve_rmp")
        A.call(m, "store_lp_solution")
        A.call(m, "add_beta_cuts")

    def cuts(A):
        m = master(A)
        A.call(m, "generate_mp", X, Y)
        A.call(m, "solve_rmp")
        A.call(m, "add_cuts")

    def prep(A):
        m = master(A)
        A.call(m, "generate_mp", X, Y)
        A.call(m, "preprocess_rows", K1)

    def price(c, first, sat=False):
        def run(A):
            if sat:
                A.I.stubs["BaseSubproblem.solve_model"] = lambda I, a, k: NONE
            if "Heuristic" in c:
                # one attempt; what it asks about its path is left open
                A.I.cap[c + ".generate_columns"] = 1
                A.I.stubs["get_satisfied_rows"] = lambda I, a, k: A.lst(K0)
                A.I.stubs[c + ".get_reduced_cost"] = lambda I, a, k: S("rc", ("real",))
                leaf = A.new("Leaf")
                for n, v in (("id", K(2)), ("left_nodes", A.lst(K0)), ("right_nodes", A.lst(K(2)))):
                    A.I.set_attr(leaf, n, v)
                A.I.pick[LEAVES] = leaf
            names = [x.arg for x in prog.method(prog.cls(c), "__init__").node.args.args][1:]
            kw = {"leaf": LEAF, "leaves": LEAVES, "nodes": NODES, "splits": sc.SPLITS, "targets": ANYTARGETS, "target": sc.TARGET,
                  "depth": DEPTH, "data_rows": ROWS}
            m = A.new(c, **{n: kw[n] for n in names if n in kw})
            for k in range(2):
                d = A.tup(*sc.single_cuts(k, A))
                A.call(m, "update_subproblem", X, Y, d)
                A.call(m, "generate_columns", X, Y, d)
        return run
    def answer(A):
        from .scen_bdr import encoder_attr
        clf = A.new("DTreeClassifier", PATHS, LEAVES, NODES, SPLITS0, DEPTH, ANYTARGETS, data_rows=ROWS)
        A.I.set_attr(A.attr(clf, "master_problem"), "selected_paths", sc.TREE)
        A.I.set_attr(clf, encoder_attr(prog), A.I.alloc("labelenc"))
        A.call(clf, "predict", X)
    out = [("prediction", "DTreeClassifier.predict", answer, None),
           ("construction, LP, added path, integer solve", "DTreeMasterProblem.add_column", build, None),
           ("separated rows", "DTreeMasterProblem.add_beta_cuts", rows, None)]
    for c in ("DTreeSubProblemSat", "DTreeSubProblemOld", "DTreeSubProblemHeuristic"):
        out.append((c, c + ".generate_columns", price(c, None, "Sat" in c), c))
    return out, given


HELD = ("candidate_splits", "node_ids", "splits", "left_nodes", "right_nodes", "left_rows", "right_rows")


def element_list(l, names):
    """Name of a list or set held by an element of a given list."""
    if l.op == "f" and l.a[0] == "attr" and l.a[2] in HELD:
        e = l.a[1]
        if e.op == "f" and e.a[0] == "sel" and e.a[1] in names:
            return "%s (%s of an element)" % (names[e.a[1]], l.a[2])
    return None


def changes(prog):
    """[(title, where, list, kind of change)], undecided drives, drives."""
    from . import scen_dt as sc
    found, open_, done = [], [], []
    ds, given = drives(prog)
    for title, where, run, c in ds:
        A, _ = setup(prog)
        names = dict(LISTS)
        names[sc.SPLITS] = "splits"
        if c is not None:
            names = {l: n for l, n in names.items() if (c, n) in given}
        why = None
        try:
            run(A)
        except Unsup as e:
            why = str(e)
        hit = False
        for kind, bs, g, d in A.I.events:
            if kind not in ("mutate", "mutset") or g is K0 or infeasible(g):
                continue
            for _, l in leaves(d[1]) if isinstance(d[1], T) else ():
                n = names.get(l) or element_list(l, names)
                if n:
                    hit = True
                    found.append((title, where, n, d[0]))
        if hit:
            continue
        if why:
            open_.append((title, where, why))
        else:
            done.append(title)
    return found, open_, done
