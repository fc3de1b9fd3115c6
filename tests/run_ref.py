"""Development self-test: variants of the source, which checks must fire, which must stay quiet.
   run_ref.py CASEMODULE [case names]"""
import sys, os, time, shutil, tempfile, warnings, importlib, io, contextlib
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from multiprocessing import Pool
from sa import source, registry
os.environ["SA_DEV"] = "1"
KNOWN = {l.strip().split(" key=", 1)[1] for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt"))
         if l.startswith("finding: ")}
REPO = os.environ.get("SA_REPO", "/repo")


def variant(edits):
    d = tempfile.mkdtemp(prefix="refv_")
    for sub in ("col_gen_estimator", "examples"):
        shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub))
    for f, old, new in edits:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) < 1:
            shutil.rmtree(d)
            return None
        t = t.replace(old, new) if new.startswith("ALL:") else t.replace(old, new, 1)
        t = t.replace("ALL:", "")
        open(p, "w").write(t)
        compile(t, p, "exec")
    return d


def one(job):
    name, expect, edits, ids = job
    d = variant(edits)
    if d is None:
        return name, expect, {}, {}, "EDIT DOES NOT APPLY"
    checks = registry.load()
    vs, us = {}, {}
    err = None
    try:
        for i in [i for i in ids if i in checks]:
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    r = checks[i]["fn"](i, source.Program(d), "quick")
            except source.Broken as e:
                err = "%s broken %s" % (i, e)
                continue
            new = [v["message"] for v in r.violations if v["message"] not in KNOWN]
            if new:
                vs[i] = new
            if r.undecided:
                us[i] = [v["message"] for v in r.undecided]
    except Exception as e:
        import traceback
        err = traceback.format_exc()[-600:]
    finally:
        shutil.rmtree(d)
    return name, expect, vs, us, err


if __name__ == "__main__":
    M = importlib.import_module("tests." + sys.argv[1])
    only = sys.argv[2:]
    fast = os.environ.get("FAST")     # bugs: only the expected checks
    jobs = [(n, x, e, sorted(set(x) if fast and x else set(M.IDS) - ({"D08"} if fast == "2" else set()) | set(x or ()))) for n, x, e in M.CASES if not only or n in only]
    nb = 0
    with Pool(int(os.environ.get('PROCS', 7)), maxtasksperchild=2) as p:
        for name, expect, v, u, err in p.imap_unordered(one, jobs):
            if expect is None:
                ok = not v and not err
                tag = "ok   " if ok and not u else "UND  " if ok else "ALARM"
            else:
                ok = bool(set(v) & set(expect))
                tag = "ok   " if ok else "MISS "
            if err and "APPLY" in err:
                tag = "EDIT "
            print(tag, name, "" if expect is None else "expected %s" % sorted(expect), sorted(v), "undecided %s" % sorted(u) if u else "", err or "")
            if tag != "ok   " or only:
                for k, ms in v.items():
                    for m in ms[:(2 if only else 1)]:
                        print("      V", k, m[:(300 if only else 110)])
                for k, ms in u.items():
                    for m in ms[:(2 if only else 1)]:
                        print("      U", k, m[:(300 if only else 110)])
