"""The experiment driver: command line options, limits handed on, row sides and row preprocessing (E01-E04)."""
import ast
import re

from . import scen_dt as sd
from .compare import Run
from .exec import FuncV
from .source import Func, Broken
from .term import S, K, K0, K1, F, T, Unsup, eq, lt, lnot, lor, leaves

OPTIONS = {  # documented option: (converted to int, how the driver uses it)
    "T": (False, "training data"), "t": (False, "test data"), "S": (False, "sep"), "H": (True, "header"), "d": (True, "tree_depth"),
    "i": (True, "max_iterations"), "s": (True, "time_limit"), "r": (False, "open")}
ARG = S("arg", ("any",))
NUMBER = S("number given", ("int", None, None))


def calls(tree, name):
    """Calls of a function or method of that name, in source order."""
    out = [n for n in ast.walk(tree) if isinstance(n, ast.Call) and (
        isinstance(n.func, ast.Attribute) and n.func.attr == name or isinstance(n.func, ast.Name) and n.func.id == name)]
    return sorted(out, key=lambda n: (n.lineno, n.col_offset))


def names(node, ctx):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def stored(s):
    out = names(s, ast.Store)
    return out | {n.target.id for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}


class Driver:
    def __init__(self, prog):
        self.prog, self.mod = prog, prog.mod("ex")
        if "main" not in self.mod.funcs:
            raise Unsup("no main function")
        self.main = self.mod.funcs["main"].node
        self.body = self.main.body
        got = [s for s in self.body if calls(s, "getopt") or calls(s, "gnu_getopt")]
        if len(got) != 1:
            raise Unsup("options are not read by one getopt call")
        self.read = got[0]
        self.call = (calls(self.read, "getopt") + calls(self.read, "gnu_getopt"))[0]
        self.opts = None
        for s in ast.walk(self.read):
            if isinstance(s, ast.Assign) and s.value is self.call and isinstance(s.targets[0], (ast.Tuple, ast.List)) and \
                    isinstance(s.targets[0].elts[0], ast.Name):
                self.opts = s.targets[0].elts[0].id
        if self.opts is None:
            raise Unsup("result of getopt")
        start = self.body.index(self.read)
        users = [k for k, s in enumerate(self.body) if k > start and self.opts in names(s, ast.Load)]
        if not users:
            raise Unsup("options are not used")
        self.end = users[-1]

    def accepted(self):
        """Short and long options of the getopt call: {name: takes an argument}."""
        a = self.call.args
        if len(a) < 2 or not isinstance(a[1], ast.Constant) or not isinstance(a[1].value, str):
            raise Unsup("option letters are not a constant")
        short = {c: follow == ":" for c, follow in re.findall(r"(\w)(:?)", a[1].value)}
        long = {}
        if len(a) > 2:
            if not isinstance(a[2], (ast.List, ast.Tuple)) or not all(isinstance(e, ast.Constant) for e in a[2].elts):
                raise Unsup("long option names are not constants")
            long = {e.value.rstrip("="): e.value.endswith("=") for e in a[2].elts}
        return short, long

    def function(self, body, params, result):
        """A function of selected statements that returns the expression result."""
        f = ast.FunctionDef(name="main", args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None),
            body=list(body) + [ast.Return(value=result)], decorator_list=[], returns=None, type_comment=None)
        if hasattr(f, "type_params") or True:
            f.type_params = []
        ast.copy_location(f, self.main)
        ast.fix_missing_locations(f)
        return FuncV(Func(self.mod, f, name="main"))

    def slice(self, sink, expr, seen=None):
        """Statements of main that decide the value of expr at statement sink, and the names they start from."""
        need = names(expr, ast.Load)
        seen = set() if seen is None else seen
        keep = []
        block = isinstance(sink, (ast.For, ast.While, ast.If, ast.With, ast.Try))
        for s in reversed(self.body[:self.body.index(sink) + block]):
            seen |= need
            w = stored(s)
            if s is not self.read and w & need:
                keep.append(s)
                if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
                    need -= w
                need |= names(s, ast.Load)
        seen |= need
        return keep[::-1], need

    def closure(self, sink, expr):
        seen = set()
        self.slice(sink, expr, seen)
        return seen

    def sink(self, name, arg):
        """(statement, argument) of the calls of name in main that have that argument."""
        out = []
        for s in self.body:
            for c in calls(s, name):
                v = None
                if isinstance(arg, int):
                    v = c.args[arg] if len(c.args) > arg else None
                else:
                    v = next((k.value for k in c.keywords if k.arg == arg), None)
                if v is not None:
                    out.append((s, v))
        return out

    def run(self):
        A = Run(self.prog, self.mod, "code")
        A.I.soft_asserts = True
        return A


def settings(prog):
    """{option: {name: value} or reason} for every accepted option, None: the defaults."""
    d = Driver(prog)
    short, long = d.accepted()
    part = [s for s in d.body[:d.end + 1] if s is not d.read and stored(s)]
    loop = {n for s in part for f in ast.walk(s) if isinstance(f, ast.For) for n in names(f.target, ast.Store)}
    vs = sorted({n for s in part for n in stored(s)} - loop)
    out = {}
    for o in [None] + ["-" + c for c, a in short.items() if a] + ["--" + c for c, a in long.items() if a]:
        A = d.run()
        f = d.function(part, [d.opts], ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Load()) for n in vs], ctx=ast.Load()))
        try:
            z = A.I.call(f, [A.lst(*([] if o is None else [A.tup(K(o), ARG)]))], {})
            out[o] = {n: A.I.get_item(z, K(k)) for k, n in enumerate(vs)} if A.I.pc is K1 else "may fail"
        except Unsup as e:
            out[o] = str(e)
    return d, short, long, out


def uses(d):
    """{role: [names that decide it]} for the things options are documented to set."""
    def of(*sinks):
        return [d.closure(s, v) for s, v in sinks]
    train = of(*d.sink("fit", 0))
    return {"training data": train, "test data": of(*d.sink("score", 0)), "sep": of(*d.sink("read_csv", "sep")),
            "header": of(*d.sink("read_csv", "header")), "tree_depth": of(*d.sink("DTreeClassifier", "tree_depth")),
            "max_iterations": of(*d.sink("DTreeClassifier", "max_iterations")), "time_limit": of(*d.sink("DTreeClassifier", "time_limit")),
            "open": of(*d.sink("open", 0))}


def documented(d):
    """Options named in the usage text of the driver."""
    out = set()
    for s in ast.walk(d.mod.tree):
        if isinstance(s, ast.Constant) and isinstance(s.value, str):
            out |= set(re.findall(r"^\s*-(\w) <", s.value, re.M))
    return out


def options(prog):
    """Problems with the options: (violations, undecided, facts)."""
    d, short, long, sets = settings(prog)
    bad, open_, facts = [], [], []
    base = sets[None]
    if isinstance(base, str):
        return bad, ["defaults: " + base], facts
    roles = uses(d)
    holds = {}
    for o in sorted(documented(d) & set(OPTIONS)):
        number, role = OPTIONS[o]
        if not short.get(o):
            bad.append("option -%s is documented but not accepted with a value" % o)
            continue
        v = sets["-" + o]
        if isinstance(v, str):
            open_.append("-%s: %s" % (o, v))
            continue
        changed = {n for n in v if v[n] is not base[n]}
        want = F("int", ARG) if number else ARG
        holds[o] = own = {n for n in changed if any(x is want or x.op == "f" and x.a[0] == "strf" and mentions(x, want)
                                                    for _, x in leaves(v[n]) if isinstance(x, T))}
        if not changed:
            bad.append("option -%s has no effect" % o)
        elif not own:
            if all(isinstance(v[n], T) and not opaque(v[n], want) for n in changed):
                bad.append("option -%s does not set its value: %s" % (o, ", ".join(sorted(changed))))
            else:
                open_.append("-%s: value set is not understood" % o)
        facts.append("-%s sets %s" % (o, ", ".join(sorted(changed))))
        same = [n for n, w in sets.items() if n and n.startswith("--") and not isinstance(w, str) and w == v]
        if not same:
            undone = [n for n, w in sets.items() if n and n.startswith("--") and isinstance(w, str)]
            (open_ if undone else bad).append("option -%s has no long form with the same effect" % o)
    for o, own in holds.items():
        for p in holds:
            if o < p and own & holds[p]:
                bad.append("options -%s and -%s set the same setting" % (o, p))
        number, role = OPTIONS[o]
        places = roles[role]
        other = holds.get("t" if role == "training data" else "T", set())
        if not own:
            continue
        if not places:
            open_.append("-%s: no use found" % o)
        elif role == "test data":
            if not any(own & c for c in places):
                bad.append("setting of option -t is not used for scoring")
        elif role == "training data":
            if any(other & c for c in places):
                joint = any(isinstance(s, ast.Assign) and len(stored(s)) > 1 and names(s.value, ast.Load) & own and names(s.value, ast.Load) & other
                            for s in d.body)
                (open_ if joint else bad).append("test data reach training")
            if not all(own & c for c in places):
                bad.append("setting of option -T does not reach training")
        elif not all(own & c for c in places):
            bad.append("setting of option -%s does not reach %s" % (o, role))
    return bad + unknown(d), open_, facts


def mentions(x, y):
    return x is y or isinstance(x, T) and any(mentions(z, y) for z in x.a if isinstance(z, T))


def opaque(v, want):
    """Whether the value could contain the option's value in a form not modelled."""
    return any(not (x is ARG or x.op in ("c", "k")) and mentions(x, ARG) for _, x in leaves(v) if isinstance(x, T))


def unknown(d):
    """An unknown option must end the program with an error."""
    if not isinstance(d.read, ast.Try):
        return []
    out = []
    for h in d.read.handlers:
        exits = [c for s in h.body for n in ("exit", "_exit") for c in calls(s, n)]
        if any(isinstance(n, ast.Raise) for s in h.body for n in ast.walk(s)):
            continue
        for c in exits:
            if not c.args or isinstance(c.args[0], ast.Constant) and c.args[0].value in (0, None, False):
                out.append("an unknown option ends the program without an error status")
        if not exits and all(isinstance(s, (ast.Pass, ast.Continue)) or isinstance(s, ast.Assign) and isinstance(s.value, (ast.List, ast.Tuple, ast.Constant))
                             or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "print"
                             for s in h.body):
            out.append("an unknown option does not end the program")
    return out


def limit(prog):
    """Time limit handed to the classifier for a user limit of NUMBER: [(text, value, I)]."""
    d = Driver(prog)
    out = []
    for k, (s, v) in enumerate(d.sink("DTreeClassifier", "time_limit")):
        keep, need = d.slice(s, v)
        for o in ("-s", "--time_limit"):
            A = d.run()
            z = A.I.call(d.function(keep, [d.opts], v), [A.lst(A.tup(K(o), NUMBER))], {})
            out.append((o, z, A.I))
    return out


def quota(prog):
    """Limits on the number of candidate splits per node handed to reduce_splits, for a tree of depth NUMBER."""
    d = Driver(prog)
    out = []
    f = d.mod.funcs.get("reduce_splits")
    if f is None:
        raise Unsup("reduce_splits")
    ps = [a.arg for a in f.node.args.args]
    for s in d.body:
        for c in calls(s, "reduce_splits"):
            for k, p in enumerate(ps[2:], 2):
                v = c.args[k] if len(c.args) > k else next((w.value for w in c.keywords if w.arg == p), None)
                if v is None:
                    continue
                keep, need = d.slice(s, v)
                A = d.run()
                z = A.I.call(d.function(keep, [d.opts], v), [A.lst(A.tup(K("-d"), NUMBER))], {})
                out.append((p, z, A.I))
    return out


# ------------------------------------------------------------------ rows
def setup(prog):
    A, B = Run(prog, prog.mod("ex"), "code"), Run(prog, prog.mod("spec:dt"), "spec")
    A.I.soft_asserts = B.I.soft_asserts = True
    return A, B


def follows(prog):
    A, B = setup(prog)
    A.ob("row follows path", A.func("row_satisfies_path", sd.SPLITS0, sd.X, sd.PATH, sd.LEAF, sd.ROW_I))
    B.ob("row follows path", B.func("follows", F("sel", sd.X, sd.ROW_I), sd.LEAF, sd.SPLITS0, sd.PATH))
    return A, B


def fresh_splits(prog, R):
    """Splits to which no row has been added yet."""
    sd.spec_func(prog, R, "new_splits", sd.SPLITS0)


def rows_of_splits(prog):
    A, B = setup(prog)
    for R in (A, B):
        fresh_splits(prog, R)
        R.assume(lt(sd.SPLITNO, F("len", sd.SPLITS0)))
        R.assume(lt(sd.ROW_I, F("len", sd.X)))
    A.func("add_rows_to_splits", sd.SPLITS0, sd.X)
    s = F("sel", sd.SPLITS0, sd.SPLITNO)
    left = sd.spec_func(prog, B, "goes_left", F("sel", sd.X, sd.ROW_I), s)
    A.ob("left rows", A.I.contains(A.attr(s, "left_rows"), sd.ROW_I))
    B.ob("left rows", left)
    A.ob("right rows", A.I.contains(A.attr(s, "right_rows"), sd.ROW_I))
    B.ob("right rows", lnot(left))
    return A, B


def preprocessed(aggressive):
    def run(prog):
        A, B = setup(prog)
        A.I.folds = B.I.folds = True
        for R in (A, B):
            sd.spec_func(prog, R, "new_tree", sd.NODESD)
            fresh_splits(prog, R)
        A.func("add_rows_to_splits", sd.SPLITS0, sd.X)
        rows = A.func("preprocess", sd.NODESD, sd.SPLITS0, sd.X, sd.Y, sd.DEPTH, aggressive, K(-1))
        srows = B.func("preprocess", sd.X, sd.NODESD, sd.SPLITS0, sd.LEAVESD, B.lst(), sd.DEPTH, K0)
        A.ob("number of rows", A.I.b_len(rows))
        B.ob("number of rows", B.I.b_len(srows))
        for R in (A, B):
            R.assume(lt(sd.NODENO, sd.LENS[sd.NODESD]))
            R.assume(lt(sd.ROW_I, F("len", sd.X)))
        node = F("sel", sd.NODESD, sd.NODENO)
        place = sd.spec_func(prog, B, "node_place", sd.NODENO, sd.DEPTH)
        for k, n in enumerate(("parent", "left_child", "right_child", "children_are_leaves")):
            A.ob("node: " + n, A.attr(node, n))
            B.ob("node: " + n, B.I.get_item(place, K(k)))
        a, b = A.I.get_item(rows, sd.ROW_I), B.I.get_item(srows, sd.ROW_I)
        for n, s in (("left_splits", "left"), ("right_splits", "right"), ("reachable_nodes", "nodes"), ("reachable_leaves", "leaves")):
            A.ob("row: " + n, A.I.contains(A.attr(a, n), sd.ANYNO))
            B.ob("row: " + n, B.I.contains(B.attr(b, s), sd.ANYNO))
        A.ob("row: target", A.attr(a, "target"))
        B.ob("row: target", F("sel", sd.Y, sd.ROW_I))
        for n, v in (("removed_from_master", B.attr(b, "removed")), ("removed_from_sp", K0), ("weight", K1)):
            A.ob("row: " + n, A.attr(a, n))
            B.ob("row: " + n, v)
        A.claims["row: weight"] = A.claims["row: removed_from_sp"] = \
            lambda: eq(sd.spec_func(prog, A, "pricing_weight", rows), F("len", sd.X))
        A.claims["row: removed_from_master"] = lambda: lor(lnot(A.I.truthy(A.attr(a, "removed_from_master"))), A.I.truthy(
            sd.spec_func(prog, A, "redundant", sd.X, rows, sd.NODESD, sd.SPLITS0, sd.ROW_I)))
        return A, B
    return run


plain, aggressive = preprocessed(K0), preprocessed(K1)
