#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from registry import CHECKS, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd="bin/check %s" % i, thorough_cmd="VERIF_TIER=thorough bin/check %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level=CHECKS[i]["level"], level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every monitor observes the public interface, the process (sanitizers, valgrind, guard pages, interposed allocation and I/O) or the instrumented control flow. DESIGN.md describes each check.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
