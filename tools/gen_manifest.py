#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and tools/not_applicable.json."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from sa import registry
checks = registry.load()
na = json.load(open(HERE + "/tools/not_applicable.json"))
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl") if l.strip()]
out = dict(version=1, setup_cmd="python3 -m compileall -q sa >/dev/null 2>&1; python3 check.py --list >/dev/null",
           checks=[], not_applicable=[],
           notes="All checks read the syntax trees of /repo's working tree on every run; nothing of /repo is imported or run.")
for p in props:
    if p in checks:
        c = checks[p]
        out["checks"].append(dict(property=p, quick_cmd="python3 check.py %s quick" % p,
                                  thorough_cmd="python3 check.py %s thorough" % p,
                                  evidence_file="evidence/%s.json" % p, technique=c["technique"], level="other",
                                  level_note=c["note"]))
    else:
        out["not_applicable"].append(dict(property=p, reason=na.get(p) or "no sound static check has been built for it yet"))
for p in na:
    if p in checks:
        print("note: %s is both claimed and in not_applicable.json" % p)
json.dump(out, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "claimed;", len(out["not_applicable"]), "not applicable:", [x["property"] for x in out["not_applicable"]])
