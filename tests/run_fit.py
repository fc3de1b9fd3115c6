import sys, os, shutil, tempfile, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from multiprocessing import Pool
from sa import source, fitflow
from tests import fit_cases as FC
REPO = os.environ.get("SA_REPO", "/repo")


def variant(edits):
    d = tempfile.mkdtemp(prefix="fitv_")
    for sub in ("col_gen_estimator", "examples"):
        shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub))
    for f, old, new in edits:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) < 1:
            shutil.rmtree(d)
            raise SystemExit("edit does not apply: %r" % old[:80])
        open(p, "w").write(t.replace(old, new, 1))
        compile(t.replace(old, new, 1), p, "exec")
    return d


def one(case):
    name, expect, edits = case
    d = variant(edits)
    try:
        f = fitflow.FitFlow(source.Program(d)).run(1)
        return name, expect, sorted(set(f.viol)), sorted(set(f.und)), None
    except Exception as e:
        return name, expect, [], [], "%s: %s" % (type(e).__name__, e) + " line %s" % getattr(getattr(e, "node", None), "lineno", None)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    only = sys.argv[1:]
    cases = [c for c in FC.BUGS] + [(n, None, e) for n, e in FC.SAME]
    cases = [c for c in cases if not only or c[0] in only]
    with Pool(8) as p:
        for name, expect, v, u, err in p.imap(one, cases):
            got = {x[0] for x in v}
            if expect is None:
                ok = not v and not u and not err
            else:
                ok = bool(got & expect)
            print("ok  " if ok else "BAD ", name, "" if ok else "expected %s" % (expect or "quiet"), sorted(got), "UND" if u else "", err or "")
            if not ok or only:
                for x in v[:6]:
                    print("      V", x)
                for m in sorted({x[1] for x in u})[:5]:
                    print("      U", m)
