"""Scenarios and reference comparison for decision trees (D02-D16)."""
import itertools
import random
from fractions import Fraction

from .compare import Run
from .exec import FuncV
from .scen_bdr import encoder_attr, fitted
from .sepa import Rec
from .term import S, ite, lt, lor, K, K0, K1, NONE, LENS, F, RECS, AXIOMS, typeof, land, lnot, eq, le, add, fresh, Unsup, T, infeasible, leaves

REAL = ("real",)
NAT = ("int", 0, None)
BOOL = ("int", 0, 1)


def ident(kind):
    """Number of an element of one of the lists below."""
    return ("int", 0, None, kind)


SPLIT, NODE, LEAFID, ROWID, CUTID, CLASS = map(ident, ("split", "node", "leaf", "row", "cut", "class"))
ROWSET, CUTSET, SPLITSET, NODESET = ("set", ROWID), ("set", CUTID), ("set", SPLIT), ("set", NODE)

RECS["split"] = dict(id=SPLIT, feature=NAT, threshold=REAL, removed=BOOL, left_rows=ROWSET, right_rows=ROWSET,
                     left_cuts=CUTSET, right_cuts=CUTSET)
# candidate splits before any cut was generated
NOCUT = ("set", ident("nocut"))
RECS["split0"] = dict(RECS["split"], left_cuts=NOCUT, right_cuts=NOCUT)
RECS["node"] = dict(id=NODE, candidate_splits=("list", SPLIT, ("distinct", "nonempty")),
                    candidate_splits_count=("list", NAT, ()), last_split=("int", None, None),
                    parent=("int", None, None), left_child=NAT, right_child=NAT, children_are_leaves=BOOL)
RECS["leaf"] = dict(id=LEAFID, left_nodes=("list", NODE, ("distinct",)), right_nodes=("list", NODE, ("distinct",)))
RECS["path"] = dict(leaf_id=LEAFID, node_ids=("list", NODE, ("distinct", "nonempty")), splits=("list", SPLIT, ("nonempty",)),
                    cost=REAL, id=NAT, target=CLASS, initial=BOOL)
RECS["row"] = dict(id=NAT, reachable_nodes=NODESET, reachable_paths=("set", ident("nopath")), reachable_leaves=("set", LEAFID),
                   target=CLASS, left_splits=SPLITSET, right_splits=SPLITSET, removed_from_master=BOOL,
                   removed_from_sp=BOOL, weight=REAL)

X = S("tX", ("arr2", REAL))
Y = S("ty", ("arr", CLASS))
LENS[Y] = F("len", X)
SPLITS = S("splits", ("list", ("rec", "split"), ("idpos",)))
SPLITS0 = S("splits0", ("list", ("rec", "split0"), ("idpos",)))
LENS[SPLITS0] = F("len", SPLITS)
AXIOMS["universe"].update(nocut=K0, nopath=K0, cut=S("ncuts", NAT))
NODES = S("nodes", ("list", ("rec", "node"), ("idpos",)))
LEAVES = S("leaves", ("list", ("rec", "leaf"), ("idpos",)))
PATHS = S("paths", ("list", ("rec", "path"), ()))
PATH = S("path", ("rec", "path"))
TREE = S("tree", ("list", ("rec", "path"), ("nonempty",)))      # one path per leaf, the same split at shared nodes
LEAF = S("leaf", ("rec", "leaf"))
ROWS = S("rows", ("list", ("rec", "row"), ()))
LENS[ROWS] = F("len", X)
AXIOMS["universe"].update(split=F("len", SPLITS), node=F("len", NODES), leaf=F("len", LEAVES), row=F("len", X))
NT = S("nt", ("int", 1, None))
AXIOMS["universe"]["class"] = NT
DEPTH = S("depth", ("int", 1, None))


def _sides(a, b):
    """A node of a leaf's path is on one side only."""
    return a.op == "f" and b.op == "f" and a.a[0] == b.a[0] == "attr" and a.a[1] is b.a[1] and \
        {a.a[2], b.a[2]} == {"left_nodes", "right_nodes"}


AXIOMS["disjoint"].append(_sides)


def _rows_of_split(r, s):
    """The row sets of a candidate split without cuts are those of the data."""
    if s.op == "f" and s.a[0] == "attr" and s.a[2] in ("left_rows", "right_rows"):
        e = s.a[1]
        if e.op == "f" and e.a[0] == "sel" and e.a[1] is SPLITS0:
            left = le(F("sel", F("sel", X, r), F("attr", e, "feature")), F("attr", e, "threshold"))
            return left if s.a[2] == "left_rows" else lnot(left)
    return None


AXIOMS["member"].append(_rows_of_split)


def _no_cuts(r, s):
    if s.op == "f" and s.a[0] == "attr" and s.a[2] in ("left_cuts", "right_cuts"):
        e = s.a[1]
        if e.op == "f" and e.a[0] == "sel" and e.a[1] is SPLITS0:
            return K0
    return None


AXIOMS["member"].append(_no_cuts)


def setup(prog):
    A, B = Run(prog, prog.mod("dt"), "code"), Run(prog, prog.mod("spec:dt"), "spec")
    A.I.soft_asserts = B.I.soft_asserts = True
    return A, B


def tree(depth):
    """[(left nodes, right nodes)] of the leaves, leaf's parent first."""
    out = []
    for l in range(2 ** depth):
        n, left, right = 2 ** depth - 1 + l, [], []
        while n:
            p = (n - 1) // 2
            (right if n % 2 == 0 else left).append(p)
            n = p
        out.append((left, right))
    return out


def num(r):
    return Fraction(r.choice([-2, -1, 0, 0, 1, 1, 2, 3, Fraction(1, 2)]))


def instances(seed):
    r = random.Random(seed)
    rich = random.Random(str(seed)).random() < .5
    depth = 2 if rich else r.choice([1, 2, 2])
    nf, n = r.randint(1, 2), r.randint(1, 4)
    x = [[Fraction(r.randint(0, 3)) for _ in range(nf)] for _ in range(n)]
    y = [r.randint(0, 2) for _ in range(n)]
    pairs = [(f, Fraction(t)) for f in range(nf) for t in (0, 1, 2)]
    r.shuffle(pairs)
    ns = r.randint(2 if rich else 1, min(4, len(pairs)))
    ncuts = r.randint(0, 2)
    cuts = [[r.random() < .5 for _ in range(ns)] for _ in range(ncuts)]
    splits = []
    for s in range(ns):
        f, t = pairs[s]
        splits.append(Rec("split", id=s, feature=f, threshold=t, removed=0,
                          left_rows={i for i in range(n) if x[i][f] <= t},
                          right_rows={i for i in range(n) if x[i][f] > t},
                          left_cuts={c for c in range(ncuts) if cuts[c][s]},
                          right_cuts={c for c in range(ncuts) if not cuts[c][s]}))
    nn = 2 ** depth - 1
    nodes = [Rec("node", id=i, candidate_splits=sorted(r.sample(range(ns), r.randint(2 if rich else 1, ns))), parent=(i - 1) // 2 if i else -1,
                 last_split=-1, children_are_leaves=int(2 * i + 1 >= nn), left_child=2 * i + 1, right_child=2 * i + 2,
                 candidate_splits_count=[]) for i in range(nn)]
    for q in nodes:
        q.candidate_splits_count = [r.randint(1, 3) for _ in q.candidate_splits]
    sides = tree(depth)
    leaves = [Rec("leaf", id=i, left_nodes=a, right_nodes=b) for i, (a, b) in enumerate(sides)]

    def path(k):
        l = r.randrange(len(leaves))
        ids = sides[l][0] + sides[l][1]
        r.shuffle(ids)
        return Rec("path", leaf_id=l, node_ids=ids, splits=[r.choice(nodes[i].candidate_splits) for i in ids],
                   cost=Fraction(r.randint(0, 4)), id=k, target=r.randint(0, 2), initial=r.randint(0, 1))
    if rich or r.random() < .5:
        # paths of two mixed trees
        pick = list(zip(*[r.sample(q.candidate_splits, 2) if rich else r.choices(q.candidate_splits, k=2) for q in nodes]))
        paths = []
        for l in leaves:
            p = path(0)
            p.leaf_id, p.node_ids = l.id, l.left_nodes + l.right_nodes
            r.shuffle(p.node_ids)
            side = [r.randint(0, 1) for _ in p.node_ids]
            for w in (0, 1):
                q = Rec(**p.__dict__)
                q.splits = [pick[t ^ w][i] for t, i in zip(side, p.node_ids)]
                q.cost = Fraction(r.randint(0, 4))
                if w == 0 or q.splits != paths[-1].splits:
                    paths.append(q)
        r.shuffle(paths)
        for k, q in enumerate(paths):
            q.id = k
    else:
        paths = [path(k) for k in range(r.randint(0, 4))]

    few = rich and seed % 3

    def row(i):
        return Rec("row", id=i, removed_from_master=int(r.random() < (.1 if few else .3)), removed_from_sp=int(r.random() < .3),
                   weight=Fraction(r.randint(1, 3)), target=y[i], reachable_nodes={j for j in range(nn) if r.random() < .7},
                   reachable_leaves={j for j in range(nn + 1) if r.random() < .7}, reachable_paths=set(),
                   left_splits={s.id for s in splits if i in s.left_rows},
                   right_splits={s.id for s in splits if i in s.right_rows})
    pick = [r.choice(q.candidate_splits) for q in nodes]
    whole = []
    for l in leaves:
        q = path(l.id)
        q.leaf_id, q.node_ids = l.id, l.left_nodes + l.right_nodes
        r.shuffle(q.node_ids)
        q.splits = [pick[i] for i in q.node_ids]
        whole.append(q)
    r.shuffle(whole)
    rows = [row(i) for i in range(n)]
    p = path(99)
    splits0 = [Rec(**dict(s.__dict__, ty="split0", left_cuts=set(), right_cuts=set())) for s in splits]
    more = [r.randint(0, 2), r.randint(0, 1), r.randint(0, 1)]
    d = {}
    total = 0
    for k, name in enumerate(ROUNDS):
        total += more[k]
        d["ld" + name] = [num(r) for _ in leaves]
        d["rd" + name] = [num(r) for _ in range(n)]
        d["nd" + name] = [[[num(r) for _ in splits] for _ in nodes] for _ in leaves]
        d["cd" + name] = [num(r) for _ in range(total)]
        d["cr" + name] = [[r.randint(0, 1) for _ in splits] for _ in range(more[k])]
    for k in range(len(ROUNDS)):
        d["crs%d" % k] = [r.randint(0, 1) for _ in splits]
        for j in range(k + 1):
            d["cds%d_%d" % (k, j)] = num(r)
    new = [r.randint(1, 2) for _ in ROUNDS]
    for k in range(len(ROUNDS)):
        d["crp%d" % k] = [[r.randint(0, 1) for _ in splits] for _ in range(new[k])]
        for bits in itertools.product((0, 1), repeat=k + 1):
            d[pattern_name(bits)] = [num(r) for _ in range(sum(b * x for b, x in zip(bits, new)))]
    nt = 3
    d.update(any_case(random.Random("any%s" % seed), depth, nodes, leaves, splits, whole, nt))
    yield dict(tX=x, ty=y, splits=splits, splits0=splits0, ncuts=ncuts, nodes=nodes, leaves=leaves, paths=paths, path=p, leaf=r.choice(leaves),
               rows=rows, hrows=[Rec(**dict(q.__dict__, ty="hrow")) for q in rows], rc=Fraction(r.choice([-2, 0, 0, 1, 3])), tree=whole, i=r.randrange(n), beta=0 if few and r.random() < .6 else r.randint(0, 1),
               depth=depth, nt=nt, target=r.randrange(nt), **d)


def instances_cuts(seed):
    """Trees of depth two whose LP solution is fractional, so that split assignments follow paths of total value above one."""
    for base in instances(seed):
        r = random.Random("cuts%s" % seed)
        if r.random() < .15:
            yield base
            continue
        n = r.randint(1, 3)
        ns = 5
        a, b, c, d, e = ids = r.sample(range(ns), 5)
        x = [[Fraction(r.randint(0, 3)) for _ in range(ns)] for _ in range(n)]
        splits = []
        for s in range(ns):
            t = Fraction(r.randint(0, 2))
            splits.append(Rec("split0", id=s, feature=s, threshold=t, removed=r.randint(0, 1), left_cuts=set(), right_cuts=set(),
                              left_rows={i for i in range(n) if x[i][s] <= t}, right_rows={i for i in range(n) if x[i][s] > t}))
        cand = [[a, b], [c, d], [e]]
        for q in cand:
            r.shuffle(q)
        nodes = [Rec("node", id=i, candidate_splits=q, parent=(i - 1) // 2 if i else -1, last_split=-1, children_are_leaves=int(i > 0),
                     left_child=2 * i + 1, right_child=2 * i + 2, candidate_splits_count=[1] * len(q)) for i, q in enumerate(cand)]
        sides = tree(2)
        leaves = [Rec("leaf", id=i, left_nodes=p, right_nodes=q) for i, (p, q) in enumerate(sides)]
        paths = []
        extra = [(1, a, c), (0, a, d), (1, b, d), (0, b, c)]        # complete trees
        extra = r.sample(extra, r.choice([0, 1, 2, 3, 4, 4]))
        for leaf, top, low in [(0, a, c), (0, b, d), (1, a, d), (1, b, c), (2, a, e), (2, b, e), (3, a, e), (3, b, e)] + extra:
            at = {0: top, (1 if leaf < 2 else 2): low}
            nn = sides[leaf][0] + sides[leaf][1]
            r.shuffle(nn)
            paths.append(Rec("path", leaf_id=leaf, node_ids=nn, splits=[at[i] for i in nn], cost=Fraction(r.randint(0, 4)), id=0,
                             target=r.randint(0, 2), initial=r.randint(0, 1)))
        if r.random() < .1:
            paths.pop(r.randrange(len(paths)))
        r.shuffle(paths)
        for k, p in enumerate(paths):
            p.id = k
        added = {(k,) for k, p in enumerate(paths) if (p.leaf_id, *[p.splits[p.node_ids.index(i)] for i in sorted(p.node_ids)]) in extra}
        mixed = {(k,) for k in range(len(paths))} - added
        p = Rec(**dict(r.choice(paths).__dict__, id=99))
        p.splits = [r.choice(cand[i]) for i in p.node_ids]
        rows = [Rec("row", id=i, removed_from_master=r.randint(0, 1), removed_from_sp=0, weight=Fraction(1), target=base["nt"] - 1,
                    reachable_nodes={0, 1, 2}, reachable_leaves={0, 1, 2, 3}, reachable_paths=set(),
                    left_splits={s.id for s in splits if i in s.left_rows}, right_splits={s.id for s in splits if i in s.right_rows})
                for i in range(n)]
        yield dict(nt=base["nt"], target=0, leaf=r.choice(leaves), tX=x, ty=[base["nt"] - 1] * n, splits0=splits, splits=[Rec(**dict(s.__dict__, ty="split")) for s in splits],
                   nodes=nodes, leaves=leaves, paths=paths, path=p, rows=rows, favoured=[mixed, added], beta=int(r.random() < .9), depth=2, ncuts=0,
                   i=r.randrange(n), j=r.randrange(ns), cutno=r.randint(0, 2))


def instances_both(seed):
    if seed % 2:
        yield from instances(seed)
        return
    for base in instances_cuts(seed):
        r = random.Random("both%s" % seed)
        base["beta"] = r.randint(0, 1)
        if r.random() < .5:
            for row in base["rows"]:
                row.removed_from_master = 0
        for p in base["paths"]:
            if r.random() < .3:
                p.cost = Fraction(0)
        yield base


def instances_rows(seed):
    """Bigger trees and more rows, some alike, for row preprocessing."""
    for base in instances(seed):
        r = random.Random("rows%s" % seed)
        depth = r.choice([2] * 16 + [3] * 2 + [4] * 2)
        inner = 2 ** depth - 1
        close = r.random() < .7         # two rows that reach the same nodes and differ somewhere
        for _ in range(300):
            nf = r.randint(1, 3)
            pairs = r.sample([(f, Fraction(t)) for f in range(nf) for t in (0, 1, 2)], 3 if nf == 1 else r.randint(3, 5))
            seen = [[Fraction(r.randint(0, 3)) for _ in range(nf)] for _ in range(3)]
            x = [list(r.choice(seen)) if r.random() < .5 else [Fraction(r.randint(0, 3)) for _ in range(nf)]
                 for _ in range(r.randint(3, 5))]
            cand = [r.sample(range(len(pairs)), r.choice([1, 2, 2, 3] if depth == 2 else [1] * 6 + [2])) for _ in range(inner)]
            side = [[v[f] <= c for f, c in pairs] for v in x]

            def reach(s):
                done = set()
                todo = [0]
                while todo:
                    i = todo.pop()
                    if i not in done:
                        done.add(i)
                        todo += [2 * i + (1 if s[k] else 2) for k in cand[i] if i < inner] if i < inner else []
                return done
            got = [reach(s) for s in side]
            alike = [b for b in range(len(x)) if len([i for i in got[b] if i >= inner]) > 2 and any(
                got[a] == got[b] and side[a] != side[b] for a in range(b))]
            if depth > 2:       # rows that reach more than two leaves by few nodes
                alike = [b for b in range(len(x)) if 2 < len([i for i in got[b] if i >= inner]) <= len([i for i in got[b] if i < inner])]
            if alike or not close:
                break
        row = r.choice(alike) if alike and r.random() < .8 else r.randrange(len(x))
        splits = [Rec("split0", id=k, feature=f, threshold=c, removed=0, left_rows=set(), right_rows=set(), left_cuts=set(), right_cuts=set())
                  for k, (f, c) in enumerate(pairs)]
        nodes = [Rec("node", id=i, candidate_splits=cand[i], parent=-1, left_child=-1, right_child=-1, last_split=-1,
                     children_are_leaves=0, candidate_splits_count=[]) for i in range(inner)]
        leaves = [Rec("leaf", id=i, left_nodes=a, right_nodes=b) for i, (a, b) in enumerate(tree(depth))]
        paths = []
        for k in range(r.randint(0, 3)):
            l = r.choice(leaves)
            ids = l.left_nodes + l.right_nodes
            paths.append(Rec("path", leaf_id=l.id, node_ids=ids, splits=[r.choice(nodes[i].candidate_splits) for i in ids],
                             cost=Fraction(r.randint(0, 4)), id=k, target=0, initial=1))
        base.update(tX=x, ty=[r.randint(0, 2) for _ in x], splits0=splits, nodesd=nodes, leavesd=leaves, paths=paths, depth=depth,
                    splits=[Rec(**dict(s.__dict__, ty="split")) for s in splits], nodes=nodes, leaves=leaves,
                    leafno=r.randrange(inner + 1), nodeno=r.randrange(inner), splitno=r.randrange(len(pairs)), anyno=r.randrange(inner + 1),
                    i=row)
        yield {k: base[k] for k in ("tX", "ty", "splits0", "splits", "nodes", "nodesd", "leaves", "leavesd", "paths", "depth", "leafno",
                                    "nodeno", "splitno", "anyno", "i", "nt", "target")}


def instances_side(seed):
    """Values at and very near the threshold."""
    for base in instances(seed):
        r = random.Random("side%s" % seed)
        k = r.randrange(len(base["splits"]))
        s = base["splits"][k]
        base["splitno"] = k
        if seed % 2:
            s.threshold = r.choice([Fraction(k, 4) for k in range(-9, 10)])
            for row in base["tX"]:
                row[s.feature] = s.threshold + r.choice([-1, Fraction(-1, 2), Fraction(-1, 4), 0, Fraction(1, 4), Fraction(1, 2), 1])
            for t in base["splits"] + base["splits0"]:
                if t.id == s.id:
                    t.threshold = s.threshold
                if t.feature == s.feature:
                    t.left_rows = {i for i, x in enumerate(base["tX"]) if x[t.feature] <= t.threshold}
                    t.right_rows = set(range(len(base["tX"]))) - t.left_rows
        if seed % 3:
            step = Fraction(1, 10 ** r.choice([1, 3, 5, 7, 8, 10, 13])) * r.choice([0, 1, -1])
            base["tX"][base["i"]][s.feature] = s.threshold + step
        yield base


def any_case(r, depth, nodes, leaves, splits, paths, nt):
    """Constructor arguments with at most one or two faults."""
    d = dict(anynodes=[Rec(**dict(q.__dict__, ty="anynode")) for q in nodes], anyleafs=[Rec(**dict(q.__dict__, ty="anyleaf")) for q in leaves],
             anysplits=[Rec(**dict(q.__dict__, ty="anysplit")) for q in splits], anytargets=list(range(nt)),
             anypaths=[Rec(**dict(q.__dict__, ty="anypath", node_ids=list(q.node_ids), splits=list(q.splits))) for q in paths])
    if r.random() < .5:         # declared targets need not be consecutive
        d["anytargets"] = r.sample(range(-1, nt + 3), nt)
        for q in d["anypaths"]:
            q.target = d["anytargets"][q.target]
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        what = r.randrange(11)
        q = r.choice(d["anypaths"])
        if what == 0:
            r.choice(d["anynodes"]).id += r.choice([-1, 1])
        elif what == 1:
            r.choice(d["anyleafs"]).id += r.choice([-1, 1])
        elif what == 2:
            q.leaf_id = r.choice([-1, len(leaves)])
        elif what == 3:
            q.node_ids[r.randrange(len(q.node_ids))] = r.choice([-1, len(nodes)])
        elif what == 4:
            q.splits[r.randrange(len(q.splits))] = r.choice([-1, len(splits)])
        elif what == 5:
            q.target = r.choice([-1, nt])
        elif what == 6:
            r.choice([q.splits, q.node_ids]).pop()
        elif what == 7:
            l = r.choice([q.splits, q.node_ids])
            l.append(l[-1])
        elif what in (8, 9):
            for l in (q.splits, q.node_ids):
                if what == 8 or len(l) < 2:
                    l.append(l[-1])
                else:
                    l.pop()
        else:
            r.choice([d["anynodes"], d["anyleafs"], d["anysplits"], d["anytargets"]]).pop(r.choice([0, -1]))
    return d


ROW_I = S("i", ROWID)


def follows(prog):
    """Direct and set-based membership tests."""
    A, B = setup(prog)
    A.ob("row follows path", A.func("row_satisfies_path", F("sel", X, ROW_I), LEAF, SPLITS, PATH))
    B.ob("row follows path", B.func("follows", F("sel", X, ROW_I), LEAF, SPLITS, PATH))
    for what in ("rows", "cuts"):
        A.ob(what + " following", A.I.contains(A.func("get_satisfied_" + what, PATH, LEAF, SPLITS), ROW_I))
        B.ob(what + " following", B.func(what + "_following", ROW_I, PATH, LEAF, SPLITS))
    return A, B


def side_effects(prog, f):
    """Sets and lists given to a membership test that it changes in place."""
    A, _ = setup(prog)
    try:
        A.func(f, PATH, LEAF, SPLITS)
    except Unsup:
        pass
    out = set()
    for kind, bs, g, d in A.I.events:
        if kind in ("mutate", "mutset") and g is not K0 and not infeasible(g):
            for _, l in leaves(d[1]) if isinstance(d[1], T) else ():
                if l.op == "f" and l.a[0] == "attr":
                    out.add(l.a[2])
    return sorted(out)


BETA = S("beta", BOOL)


def new_master(A, B, beta=K0, cuts=K0, rounds=K0, rows=ROWS):
    m = A.new("DTreeMasterProblem", PATHS, LEAVES, NODES, SPLITS0, beta_constraints_as_cuts=beta, generate_cuts=cuts,
              num_cuts_round=rounds, data_rows=rows)
    A.call(m, "generate_mp", X, Y)
    B.I.relaxed = True
    return m, B.new("Master", PATHS, LEAVES, NODES, SPLITS0, beta, rows, X)


def master(prog):
    """Initial model and the duals returned from its LP."""
    A, B = setup(prog)
    m, s = new_master(A, B, BETA)
    A.ob("duals", A.call(m, "solve_rmp"))
    B.ob("duals", B.call(s, "solve_lp"))
    return A, B


def added(prog):
    """A path is added to the initial model."""
    A, B = setup(prog)
    m, s = new_master(A, B, BETA)
    A.ob("accepted", A.call(m, "add_column", PATH))
    B.ob("accepted", K1)
    B.call(s, "add", PATH)
    A.call(m, "solve_rmp")
    B.call(s, "solve_lp")
    return A, B


def lazy(prog):
    """A path is added, then rows are separated."""
    A, B = setup(prog)
    m, s = new_master(A, B, K1)
    A.call(m, "add_column", PATH)
    B.call(s, "add", PATH)
    row = F("sel", ROWS, ROW_I)
    here = lt(ROW_I, F("len", X))
    A.ob("row reaches the new path", land(here, A.I.contains(A.attr(row, "reachable_paths"), A.attr(PATH, "id"))))
    B.ob("row reaches the new path", land(here, B.func("follows", F("sel", X, ROW_I), F("sel", LEAVES, F("attr", PATH, "leaf_id")), SPLITS0, PATH)))
    A.call(m, "solve_rmp")
    B.call(s, "solve_lp")
    A.call(m, "store_lp_solution")
    B.call(s, "store")
    A.ob("number", A.call(m, "add_beta_cuts"))
    B.ob("number", B.call(s, "separate_rows"))
    A.ob("duals", A.call(m, "solve_rmp"))
    B.ob("duals", B.call(s, "solve_lp"))
    return A, B


def lazy_first(path, again):
    """Rows are separated, then possibly a path is added, then possibly rows are separated again."""
    def run(prog):
        A, B = setup(prog)
        m, s = new_master(A, B, K1)
        for k in (1, 2)[:1 + again]:
            A.call(m, "solve_rmp")
            B.call(s, "solve_lp")
            A.call(m, "store_lp_solution")
            B.call(s, "store")
            A.ob("number %d" % k, A.call(m, "add_beta_cuts"))
            B.ob("number %d" % k, B.call(s, "separate_rows"))
            if k == 1 and path:
                A.call(m, "add_column", PATH)
                B.call(s, "add", PATH)
        A.ob("duals", A.call(m, "solve_rmp"))
        B.ob("duals", B.call(s, "solve_lp"))
        return A, B
    return run


rows_path, rows_rows = lazy_first(1, 0), lazy_first(0, 1)


def cutmodel(prog):
    """The cut model of the initial paths and one more."""
    A, B = setup(prog)
    m, _ = new_master(A, B, BETA)
    c = B.new("CutModel", PATHS, LEAVES, SPLITS0)
    A.call(m, "add_column", PATH)
    B.call(c, "add", PATH)
    A.I.cp_solve(None, A.attr(m, "cut_gen_model_"))
    B.I.cp_solve(None, B.attr(c, "m"))
    return A, B


SPLIT_J, CUT_C = S("j", SPLIT), S("cutno", NAT)


def registered(A, B, c):
    """Which cuts are registered on which side of a split."""
    split = F("sel", SPLITS0, SPLIT_J)
    for side in ("left", "right"):
        here = lt(SPLIT_J, F("len", SPLITS0))
        A.ob("cut on the %s side" % side, land(here, A.I.contains(A.attr(split, side + "_cuts"), CUT_C)))
        B.ob("cut on the %s side" % side, land(here, B.call(c, side, SPLIT_J, CUT_C)))


def cuts(prog):
    """Cuts are generated after the LP is solved, then a path is added."""
    A, B = setup(prog)
    m, s = new_master(A, B, BETA, K1)
    c = B.new("CutModel", PATHS, LEAVES, SPLITS0)
    A.call(m, "solve_rmp")
    B.call(s, "solve_lp")
    A.call(m, "store_lp_solution")
    B.call(s, "store")
    A.ob("split assignments", A.call(m, "add_cuts"))
    B.ob("split assignments", B.call(s, "separate_cuts", c))
    registered(A, B, c)      # says that the numbers of cuts are those of their constraints
    A.I.univ["nocut"] = A.I.b_len(A.attr(m, "cut_cons_"))
    A.ob("duals", A.call(m, "solve_rmp"))
    B.ob("duals", B.call(s, "solve_lp"))
    A.call(m, "add_column", PATH)
    B.call(s, "add", PATH)
    A.call(m, "solve_rmp")
    B.call(s, "solve_lp")
    return A, B


def cuts_twice(prog):
    """Two rounds of cuts."""
    A, B = setup(prog)
    m, s = new_master(A, B, BETA, K1)
    c = B.new("CutModel", PATHS, LEAVES, SPLITS0)
    for k in (1, 2):
        A.call(m, "solve_rmp")
        B.call(s, "solve_lp")
        A.call(m, "store_lp_solution")
        B.call(s, "store")
        A.ob("split assignments %d" % k, A.call(m, "add_cuts"))
        B.ob("split assignments %d" % k, B.call(s, "separate_cuts", c))
    registered(A, B, c)
    A.ob("duals", A.call(m, "solve_rmp"))
    B.ob("duals", B.call(s, "solve_lp"))
    return A, B


def solved(beta, cuts, rounds):
    """The master is solved in an iteration with rounds of separation."""
    def run(prog):
        A, B = setup(prog)
        m, s = new_master(A, B, K1 if beta else K0, K1 if cuts else K0, K(rounds))
        c = B.new("CutModel", PATHS, LEAVES, SPLITS0)
        A.I.set_attr(m, "iter_", K(9))
        A.ob("duals", A.call(m, "solve_rmp"))
        B.ob("duals", B.call(s, "solve_lp", K(rounds), K1 if beta else K0, c if cuts else NONE))
        return A, B
    return run


ERRORS = ("AssertionError", "ValueError", "RuntimeError", "Exception")


def integer(prog):
    """The integer master is solved, a path is added, and it is solved again."""
    A, B = setup(prog)
    m, s = new_master(A, B, BETA)
    B.I.relaxed = False
    for k in (1, 2):
        if k == 2:
            A.call(m, "add_column", PATH)
            B.call(s, "add", PATH)
        at = len(A.I.events), len(B.I.events)
        A.call(m, "solve_ip")
        A.ob("tree %d" % k, A.attr(m, "selected_paths"), bag=True)
        B.ob("tree %d" % k, B.call(s, "ip"), bag=True)
        A.raised("integer solve %d fails" % k, ERRORS, at[0])
        B.raised("integer solve %d fails" % k, ERRORS, at[1])
    copied_now(A, B)
    return A, B


def copied_now(A, B):
    """The integer master is solved on the model as it is then."""
    A.obs["copy of the current model"] = (lnot(lor(K0, *A.I.old_copies)), K1)
    B.obs["copy of the current model"] = (K1, K1)


def integer_rows(prog):
    """The integer master is solved, rows are separated, and it is solved again."""
    A, B = setup(prog)
    m, s = new_master(A, B, K1)
    B.I.relaxed = False
    for k in (1, 2):
        A.call(m, "solve_ip")
        A.ob("tree %d" % k, A.attr(m, "selected_paths"), bag=True)
        B.ob("tree %d" % k, B.call(s, "ip"), bag=True)
        if k == 1:
            A.call(m, "solve_rmp")
            B.call(s, "solve_lp")
            A.call(m, "store_lp_solution")
            B.call(s, "store")
            A.call(m, "add_beta_cuts")
            B.call(s, "separate_rows")
    copied_now(A, B)
    return A, B


def predict(prog):
    A, B = setup(prog)
    clf = A.new("DTreeClassifier", newlist(A), LEAVES, NODES, SPLITS, DEPTH, targets(A))
    mp = A.attr(clf, "master_problem")
    A.I.set_attr(mp, "selected_paths", TREE)
    A.I.set_attr(clf, encoder_attr(prog), A.I.alloc("labelenc"))
    A.ob("prediction", A.call(clf, "predict", X))
    A.obs["asks whether the model is fitted"] = (fitted(A, clf), K1)
    B.obs["asks whether the model is fitted"] = (K1, K1)
    B.ob("prediction", B.tup(K("decoded"), B.func("predict", X, LEAVES, SPLITS, TREE)))
    return A, B


def newlist(R):
    return R.I.newlist([])


ROUNDS = ("", "2", "3")
LD = tuple(S("ld" + k, ("arr", REAL)) for k in ROUNDS)
RD = tuple(S("rd" + k, ("arr", REAL)) for k in ROUNDS)
ND = tuple(S("nd" + k, ("arr", ("arr", ("arr", REAL)))) for k in ROUNDS)
CD = tuple(S("cd" + k, ("list", REAL, ())) for k in ROUNDS)
CR = tuple(S("cr" + k, ("list", ("arr", BOOL), ())) for k in ROUNDS)
LENS[CR[0]] = F("len", CD[0])
for k in range(3):
    LENS[RD[k]] = F("len", X)
    LENS[LD[k]] = F("len", LEAVES)
    if k:
        LENS[CD[k]] = add(F("len", CD[k - 1]), F("len", CR[k]))


def targets(R):
    b = fresh(("R", NT))
    return R.I.newlist([(((b, ("R", NT)),), K1, b)])


def duals(R, k):
    return R.tup(LD[k], RD[k], ND[k], CD[k], CR[k])


PATHREC = {"Path": ("leaf_id", ("node_ids", "splits"), "target", "cost")}


def columns(A, B, k, a, b):
    """The paths returned in a round, and how many; a path may be left out, but none may be added."""
    name = "columns of round %d" % (k + 1)
    A.ob(name, a)
    B.ob(name, b)
    A.ob("number of " + name, A.I.b_len(a))
    B.ob("number of " + name, B.I.b_len(b))
    A.claims["number of " + name] = lambda c, s: le(c, s)


def mip(rounds, old=False, rows=ROWS, single=False):
    """Pricing rounds of one leaf; cuts are known from the start and new ones arrive in every round."""
    def run(prog):
        A, B = setup(prog)
        A.I.records = B.I.records = PATHREC
        name, spec = ("DTreeSubProblemOld", "PricingTarget") if old else ("DTreeSubProblem", "PricingMip")
        m = A.new(name, LEAF, NODES, SPLITS, TARGET if old else targets(A), DEPTH, rows, K("cbc"))
        s = B.new(spec, LEAF, NODES, SPLITS, TARGET if old else NT, DEPTH, rows, X, Y)
        for k in range(rounds):
            d, e = (A.tup(*single_cuts(k, A)), single_cuts(k, B)) if single else (duals(A, k), [x[k] for x in (LD, RD, ND, CD, CR)])
            A.call(m, "update_subproblem", X, Y, d)
            a = A.call(m, "generate_columns", X, Y, d)
            B.call(s, "duals", *e)
            columns(A, B, k, a, B.call(s, "price"))
        return A, B
    return run


TARGET = S("target", CLASS)
pricing_mip = mip(3)
pricing_plain = mip(1, rows=NONE)
pricing_single = mip(3, single=True)
pricing_old_single = mip(3, old=True, single=True)
pricing_old = mip(3, old=True)
pricing_old_plain = mip(1, old=True, rows=NONE)


def pattern_name(bits):
    return "cdp" + "".join(map(str, bits))


def cut_pattern(bits, R):
    """Per round: cut duals and new cut rows; a 1 stands for a positive number of new cuts."""
    out, n = [], K0
    for k, bit in enumerate(bits):
        if bit:
            cr = S("crp%d" % k, ("list", ("arr", BOOL), ("nonempty",)))
            n = add(n, F("len", cr))
        cd = S(pattern_name(bits[:k + 1]), ("list", REAL, ("nonempty",)))
        LENS[cd] = n
        out.append((cd if n is not K0 else R.I.newlist([]), cr if bit else R.I.newlist([])))
    return out


def single_cuts(k, R):
    """Duals and new cuts of round k if every round brings one cut."""
    cd = [S("cds%d_%d" % (k, j), REAL) for j in range(k + 1)]
    return [x[k] for x in (LD, RD, ND)] + [R.lst(*cd), R.lst(S("crs%d" % k, ("arr", BOOL)))]


def sat(bits, rows=ROWS, single=False):
    """CP-SAT pricing of one leaf."""
    def run(prog):
        A, B = setup(prog)
        A.I.records = B.I.records = PATHREC

        def solve(I, args, kw):
            names = ("model", "time_limit", "callback")
            d = dict(zip(names, args[1:]), **kw)
            I.cp_solve(None, d["model"], d.get("callback", NONE))
            return NONE
        A.I.stubs["BaseSubproblem.solve_model"] = solve
        m = A.new("DTreeSubProblemSat", LEAF, NODES, SPLITS, targets(A), DEPTH, rows)
        s = B.new("PricingSat", LEAF, NODES, SPLITS, NT, DEPTH, rows, X, Y)
        for k in range(len(bits)):
            d, e = [single_cuts(k, R) if single else [x[k] for x in (LD, RD, ND)] + list(cut_pattern(bits, R)[k]) for R in (A, B)]
            d = A.tup(*d)
            A.call(m, "update_subproblem", X, Y, d)
            a = A.call(m, "generate_columns", X, Y, d)
            B.call(s, "duals", *e)
            columns(A, B, k, a, B.call(s, "price"))
        return A, B
    return run


pricing_sat = sat((1, 1, 1))
sat_late = sat((0, 1))
sat_single = sat((1, 1, 1), single=True)
sat_plain = sat((0,), NONE)


# ------------------------------------------------------------------ the classifier's constructor
ANYID = ("int", None, None)
RECS["anynode"] = dict(RECS["node"], id=ANYID)
RECS["anyleaf"] = dict(RECS["leaf"], id=ANYID)
RECS["anypath"] = dict(RECS["path"], leaf_id=ANYID, node_ids=("list", ANYID, ()), splits=("list", ANYID, ()), target=ANYID)
RECS["anysplit"] = dict(RECS["split"], id=ANYID)
ANYNODES, ANYLEAVES, ANYPATHS, ANYSPLITS = [S("any" + n + "s", ("list", ("rec", "any" + n), ())) for n in ("node", "leaf", "path", "split")]
ANYTARGETS = S("anytargets", ("list", ANYID, ()))


def validation(prog):
    """Every constructor argument the classifier refuses."""
    A, B = setup(prog)
    args = [ANYPATHS, ANYLEAVES, ANYNODES, ANYSPLITS, DEPTH, ANYTARGETS]
    for n in CLASSES:
        A.I.stubs[n + ".__init__"] = lambda I, a, kw: NONE
    A.new("DTreeClassifier", *args)
    B.func("validate", *args)
    for R in (A, B):
        R.raised("construction fails", ERRORS)
    if A.I.notes:
        raise Unsup(A.I.notes[0])
    return A, B


CLASSES = ("DTreeMasterProblem", "DTreeSubProblem", "DTreeSubProblemSat", "DTreeSubProblemOld", "DTreeSubProblemHeuristic")

WIRED = {"master": ("initial_paths", "leaves", "nodes", "splits", "data_rows", "beta_constraints_as_cuts", "generate_cuts",
                    "num_cuts_round", "solver_type"),
         "exact": ("leaf", "nodes", "splits", "targets", "depth", "data_rows"),
         "old": ("leaf", "nodes", "splits", "target", "depth", "data_rows"),
         "heuristic": ("leaves", "nodes", "splits", "targets", "depth", "data_rows")}
KINDS = {"DTreeMasterProblem": "master", "DTreeSubProblem": "exact", "DTreeSubProblemSat": "exact", "DTreeSubProblemOld": "old",
         "DTreeSubProblemHeuristic": "heuristic"}
OPTIONS = ("num_master_cuts_round", "master_beta_constraints_as_cuts", "master_generate_cuts", "data_rows", "use_old_sp",
           "master_solver_type")


def bound(prog, I, cls, args, kw):
    """Arguments of a constructor by name."""
    a = prog.method(prog.cls(cls), "__init__").node.args
    names = [x.arg for x in a.args]
    d = dict(zip(names, args))
    d.update(kw)
    for n, v in zip(names[len(names) - len(a.defaults):], a.defaults):
        d.setdefault(n, I.ev(v))
    return d


def wiring(old):
    return lambda prog: wired(prog, old)


def wired(prog, old):
    """The problems the classifier creates and what they work on."""
    A, B = setup(prog)
    A.I.records = {c: ("kind",) + WIRED[k] for c, k in KINDS.items()}
    B.I.records = {"W" + k: ("kind",) + v for k, v in WIRED.items()}
    for c, k in KINDS.items():
        def init(I, args, kw, c=c, k=k):
            d = bound(prog, I, c, args, kw)
            for n in WIRED[k]:
                I.set_attr(args[0], n, d[n])
            I.set_attr(args[0], "kind", K(k))
            return NONE
        A.I.stubs[c + ".__init__"] = init
    ops = {o: S("opt_" + o, BOOL if o in ("master_beta_constraints_as_cuts", "master_generate_cuts", "use_old_sp") else
                ("list", ("rec", "row"), ()) if o == "data_rows" else ("any",)) for o in OPTIONS}
    ops["use_old_sp"] = old
    tg = S("anytargets", ("list", ANYID, ()))
    base = {}

    def base_init(I, args, kw):
        base.update(bound(prog, I, "ColGenClassifier", args, kw))
        return NONE
    A.I.stubs["ColGenClassifier.__init__"] = base_init
    clf = A.new("DTreeClassifier", PATHS, LEAVES, NODES, SPLITS, DEPTH, tg, **ops)
    A.ob("master problem", base["master_problem"])
    A.ob("subproblems", base["subproblems"])
    A.ob("master kept", eq(A.attr(clf, "master_problem"), base["master_problem"]))
    B.ob("master kept", K1)
    r = B.func("wire", PATHS, LEAVES, NODES, SPLITS, DEPTH, tg, *[ops[o] for o in OPTIONS])
    m, subs = [B.I.get_item(r, K(k)) for k in range(2)]
    B.ob("master problem", m)
    B.ob("subproblems", subs)
    return A, B


wiring_sat, wiring_old = wiring(K0), wiring(K1)


# ------------------------------------------------------------------ geometry and preprocessing
LEAFNO, NODENO, SPLITNO = S("leafno", LEAFID), S("nodeno", NODE), S("splitno", SPLIT)
ANYNO = S("anyno", NAT)
LEAVESD = S("leavesd", ("list", ("rec", "leaf"), ("idpos",)))     # the leaves and nodes of the complete tree
NODESD = S("nodesd", ("list", ("rec", "node"), ("idpos",)))
LENS[LEAVESD] = F("pow2", DEPTH)
LENS[NODESD] = add(F("pow2", DEPTH), K(-1))


def geometry(prog):
    """Leaf and path creation."""
    A, B = setup(prog)
    A.I.folds = B.I.folds = True
    left, right, both = [B.I.get_item(B.func("leaf_sides", LEAFNO, DEPTH), K(k)) for k in range(3)]
    leaf = A.new("Leaf")
    A.call(leaf, "create_leaf", LEAFNO, DEPTH)
    for what, v in (("left_nodes", left), ("right_nodes", right)):
        A.ob("leaf: " + what, A.attr(leaf, what), bag=True)
        B.ob("leaf: " + what, v, bag=True)
    A.ob("leaf: number", A.attr(leaf, "id"))
    B.ob("leaf: number", LEAFNO)
    p = A.new("Path")
    A.call(p, "set_leaf", LEAFNO, DEPTH)
    A.ob("path: node_ids", A.attr(p, "node_ids"), bag=True)
    B.ob("path: node_ids", both, bag=True)
    A.ob("path: leaf", A.attr(p, "leaf_id"))
    B.ob("path: leaf", LEAFNO)
    return A, B


def preprocessing(merge):
    return lambda prog: preprocessed(prog, merge)


def preprocessed(prog, merge):
    A, B = setup(prog)
    A.I.folds = B.I.folds = True
    for R in (A, B):
        spec_func(prog, R, "new_tree", NODESD)
    m = A.new("DTreeMasterProblem", PATHS, LEAVESD, NODESD, SPLITS0)
    A.I.set_attr(m, "X_", X)
    A.I.set_attr(m, "y_", Y)
    rows = A.call(m, "preprocess_rows", merge)
    srows = B.func("preprocess", X, NODESD, SPLITS0, LEAVESD, PATHS, DEPTH, merge)
    A.ob("number of rows", A.I.b_len(rows))
    B.ob("number of rows", B.I.b_len(srows))
    for R in (A, B):
        R.assume(lt(NODENO, LENS[NODESD]))
        R.assume(lt(ROW_I, F("len", X)))
    node = F("sel", NODESD, NODENO)
    place = spec_func(prog, B, "node_place", NODENO, DEPTH)
    for k, n in enumerate(("parent", "left_child", "right_child", "children_are_leaves")):
        A.ob("node: " + n, A.attr(node, n))
        B.ob("node: " + n, B.I.get_item(place, K(k)))
    a, b = A.I.get_item(rows, ROW_I), B.I.get_item(srows, ROW_I)
    for n, s in (("left_splits", "left"), ("right_splits", "right"), ("reachable_nodes", "nodes"), ("reachable_leaves", "leaves"),
                 ("reachable_paths", "paths")):
        A.ob("row: " + n, A.I.contains(A.attr(a, n), ANYNO))
        B.ob("row: " + n, B.I.contains(B.attr(b, s), ANYNO))
    for n, v in (("removed_from_master", B.attr(b, "removed")), ("removed_from_sp", K0), ("weight", K1)):
        A.ob("row: " + n, A.attr(a, n))
        B.ob("row: " + n, v)
    A.claims["row: weight"] = A.claims["row: removed_from_sp"] = lambda: eq(spec_func(prog, A, "pricing_weight", rows), F("len", X))
    A.claims["row: removed_from_master"] = lambda: lor(
        lnot(A.I.truthy(A.attr(a, "removed_from_master"))), A.I.truthy(spec_func(prog, A, "redundant", X, rows, NODESD, SPLITS0, ROW_I)))
    return A, B


def spec_func(prog, R, name, *a):
    """A function of the reference description, summarised in the state of run R."""
    old = R.I.frames[-1].mod
    R.I.frames[-1].mod = prog.mod("spec:dt")
    try:
        return R.I.call(FuncV(prog.mod("spec:dt").funcs[name]), list(a), {})
    finally:
        R.I.frames[-1].mod = old


preprocess_plain, preprocess_merge = preprocessing(K0), preprocessing(K1)


def side(name):
    def run(prog):
        A, B = setup(prog)
        m = A.new(name, LEAF, NODES, SPLITS, TARGET if name.endswith("Old") else targets(A), DEPTH, ROWS,
                  *([] if name.endswith("Sat") else [K("cbc")]))
        A.I.set_attr(m, "X_", X)
        for R in (A, B):
            R.assume(lt(ROW_I, F("len", X)))
            R.assume(lt(SPLITNO, F("len", SPLITS)))
        split = F("sel", SPLITS, SPLITNO)
        A.ob("goes left", A.I.truthy(A.call(m, "row_satisfies_split", ROW_I, split)))
        B.ob("goes left", B.I.truthy(B.func("goes_left", F("sel", X, ROW_I), split)))
        return A, B
    return run


side_mip, side_old, side_sat = map(side, ("DTreeSubProblem", "DTreeSubProblemOld", "DTreeSubProblemSat"))


# ------------------------------------------------------------------ random heuristic
FLAGS = S("flags", ("arr", BOOL))
LENS[FLAGS] = F("len", X)
CDH = S("cdh", ("list", REAL, ()))
LENS[CDH] = S("ncuts", NAT)
RECS["hrow"] = dict(RECS["row"], weight=("int", 1, None))       # weights count samples
HROWS = S("hrows", ("list", ("rec", "hrow"), ()))
LENS[HROWS] = F("len", X)


def heuristic_cost(prog):
    """Reduced cost of a given path."""
    A, B = setup(prog)
    h = A.new("DTreeSubProblemHeuristic", LEAVES, NODES, SPLITS, targets(A), DEPTH, ROWS)
    A.ob("reduced cost", A.call(h, "get_reduced_cost", X, Y, A.tup(LD[0], RD[0], ND[0], CDH, CR[0]), PATH, FLAGS))
    B.ob("reduced cost", B.func("reduced_cost", PATH, LEAVES, SPLITS, LD[0], RD[0], ND[0], CDH, FLAGS))
    return A, B


def heuristic(nrows, rows=HROWS):
    """One round of the heuristic at a leaf of depth two whose chosen path is followed by the first nrows rows."""
    def run(prog):
        A, B = setup(prog)
        A.I.folds = True
        A.I.cap["DTreeSubProblemHeuristic.generate_columns"] = 1
        leaf = A.new("Leaf")
        for n, v in (("id", K(2)), ("left_nodes", A.lst(K0)), ("right_nodes", A.lst(K(2)))):
            A.I.set_attr(leaf, n, v)
        rc = S("rc", REAL)
        asked, priced = [], []

        def following(I, args, kw):
            asked.append((args[0], args[1], args[2]))
            return A.lst(*[K(r) for r in range(nrows)])

        def cost(I, args, kw):
            d = dict(zip(("X", "y", "dual_costs", "path", "row_satisfies_path_array"), args[1:]), **kw)
            priced.append((d["path"], I.get_item(d["row_satisfies_path_array"], ROW_I)))
            return rc
        A.I.stubs["DTreeSubProblemHeuristic.get_reduced_cost"] = cost
        A.I.stubs["get_satisfied_rows"] = following
        h = A.new("DTreeSubProblemHeuristic", A.lst(leaf), NODES, SPLITS, targets(A), DEPTH, rows)
        out = A.call(h, "generate_columns", X, Y, duals(A, 0))
        A.ob("number of columns", A.I.b_len(out))
        B.ob("number of columns", lt(K(Fraction(1, 10 ** 6)), rc))
        A.claims["number of columns"] = lambda c, s: lor(le(c, K0), lt(K0, rc))
        if len(asked) != 1 or len(priced) != 1:
            raise Unsup("the rows and the reduced cost of a path are not computed once")
        segs = A.I.seq(out).segs
        if len(segs) != 1 or segs[0][0]:
            raise Unsup("generated paths")
        A.I.pc = land(A.I.pc, segs[0][1])
        p = segs[0][2]
        same = lambda x: K1 if x is p else K0
        A.ob("the reduced cost is that of the path", same(priced[0][0]))
        A.ob("the rows are those of the path", same(asked[0][0]) if asked[0][1] is leaf and asked[0][2] is SPLITS else K0)
        A.ob("rows of the reduced cost", priced[0][1])
        B.ob("rows of the reduced cost", le(ROW_I, K(nrows - 1)))
        A.ob("leaf", A.attr(p, "leaf_id"))
        B.ob("leaf", K(2))
        A.ob("nodes", A.attr(p, "node_ids"))
        B.ob("nodes", B.lst(K0, K(2)))
        A.ob("number of splits", A.I.b_len(A.attr(p, "splits")))
        B.ob("number of splits", K(2))
        for k, n in ((0, K0), (1, K(2))):
            A.ob("candidate of node %d" % k, A.I.contains(F("attr", F("sel", NODES, n), "candidate_splits"),
                                                          A.I.get_item(A.attr(p, "splits"), K(k))))
            B.ob("candidate of node %d" % k, K1)
        t = A.attr(p, "target")
        A.ob("target is declared", land(le(K0, t), lt(t, NT)))
        kept = [K1 if rows is NONE else lnot(F("attr", F("sel", rows, K(r)), "removed_from_sp")) for r in range(nrows)]
        w = [K1 if rows is NONE else F("attr", F("sel", rows, K(r)), "weight") for r in range(nrows)]
        v = K0
        for r in range(nrows):
            v = add(v, ite(land(kept[r], eq(F("sel", Y, K(r)), t)), w[r], K0))
        A.ob("cost", A.attr(p, "cost"))
        B.ob("cost", v)
        for n in ("the reduced cost is that of the path", "the rows are those of the path", "target is declared"):
            B.ob(n, K1)
        # the tree has the nodes and the data the rows named above
        A.I.events[:] = [e for e in A.I.events if e[0] != "crash"]
        return A, B
    return run
