#!/usr/bin/env python3
"""plant.py SEEDFILE [ids]: makes /verif/seeded/<id>/ from a seed file and confirms each one in a scratch copy.

A seed file defines SEEDS = [dict(id, property, file, edits=[(old, new)], demo=<python text>, needs, breaks)]."""
import json, os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))
sh = '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
for s in ns["SEEDS"]:
    if want and s["id"] not in want:
        continue
    d = tempfile.mkdtemp(prefix="plant")
    r = d + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", r])
    try:
        files = s.get("files") or {s["file"]: s["edits"]}
        for fn, edits in files.items():
            t = open(r + "/" + fn).read()
            for e in edits:
                if len(e) == 3:         # (after, old, new): the first occurrence after a mark
                    k = t.index(e[0])
                    assert e[1] in t[k:], (s["id"], e[1])
                    t = t[:k] + t[k:].replace(e[1], e[2], 1)
                    continue
                old, new = e
                assert t.count(old) == 1, (s["id"], t.count(old), old)
                t = t.replace(old, new)
            open(r + "/" + fn, "w").write(t)
        diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
        sd = d + "/seed"
        os.mkdir(sd)
        open(sd + "/demo.sh", "w").write(sh)
        os.chmod(sd + "/demo.sh", 0o755)
        open(sd + "/demo.py", "w").write(ns.get("PRELUDE", "") + s["demo"])
        open(sd + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(sd + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", sd + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=300)
        b = subprocess.run(["bash", sd + "/demo.sh"], cwd=r, capture_output=True, text=True, timeout=300)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "col_gen_estimator"], cwd=r, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=r))
        tail = (t.stdout.strip().splitlines() or ["?"])[-1]
        bad = [l for l in t.stdout.splitlines() if l.startswith("FAILED") and "test_heuristic_generate_column2" not in l]
        ok = a.returncode == 0 and b.returncode != 0 and not bad and "error" not in tail and "passed" in tail
        print("ok " if ok else "BAD", s["id"], s["property"], a.returncode, b.returncode, tail, "" if a.returncode == 0 else a.stderr[-600:], bad if not ok else "", flush=True)
        if ok:
            dst = V + "/seeded/" + s["id"]
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(sd, dst)
        # run the check
        if ok and "--nocheck" not in want:
            c = subprocess.run([sys.executable, V + "/check.py", s["property"]], capture_output=True, text=True, env=dict(os.environ, SA_REPO=r))
            print("    check:", c.returncode, [l for l in c.stdout.splitlines() if l.startswith(("VIOL", "UNDEC", "OK", "ANALY"))][:2], flush=True)
    except Exception as e:
        print("BAD", s["id"], repr(e)[:300], flush=True)
    finally:
        shutil.rmtree(d)
