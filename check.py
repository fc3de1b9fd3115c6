#!/usr/bin/env python3
"""Decides one property of /repo's current source:  check.py ID [quick|thorough]"""
import json
import os
import sys
import time
import warnings

warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import registry, source  # noqa: E402


def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line.split(" key=", 1)[1])
    return out


def main():
    if sys.argv[1] == "--list":
        print("\n".join(sorted(registry.load())))
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    checks = registry.load()
    root = os.environ.get("SA_REPO", "/repo")
    try:
        prog = source.Program(root)
        r = checks[pid]["fn"](pid, prog, tier)
    except Exception as e:                  # nothing is shown then, and nothing refuted
        r = registry.Result()
        r.unsure("analysis failed: %s: %s" % (type(e).__name__, str(e)[:200]), ("", 0), "")
        r.explanation = "The analysis did not understand the source."
    kf = known(pid)
    listed, fresh = [], []
    for v in r.violations:
        (listed if v["message"] in kf else fresh).append(v)
    cov = dict(r.coverage)
    cov["explanation"] = r.explanation or checks[pid]["technique"]
    cov["undecided"] = len(r.undecided)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other", coverage=cov,
              assumptions=r.assumptions or ["the standard semantics of Python and of the OR-Tools modelling API"],
              wall_s=round(time.time() - t0, 3), violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, v in cov.items():
        print("  %s: %s" % (k, v if len(str(v)) < 400 else str(v)[:400] + "..."))
    for v in r.undecided:
        print("UNDECIDED property=%s %s:%s %s" % (pid, v["file"], v["line"], v["message"]))
    for v in listed:
        print("KNOWN-FINDING: property=%s %s:%s %s" % (pid, v["file"], v["line"], v["message"]))
    if fresh:
        rep = os.path.join(HERE, "evidence", pid + ".report.txt")
        with open(rep, "w") as f:
            for v in fresh:
                line = "%s:%s: %s\n    rule: %s\n" % (v["file"], v["line"], v["message"], v["rule"])
                f.write(line)
                print(line, end="")
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("OK property=%s (%d undecided)" % (pid, len(r.undecided)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
