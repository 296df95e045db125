#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of harness modules (run by hand after adding a check)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Within the bounds listed in DESIGN.md and in the evidence file (templates of schemas, "
        "container sizes, string lengths, number of steps) every feasible path of the real d42 "
        "code is executed symbolically and the assertion is decided by z3 for all values on the "
        "path; configurations not exhausted within the time budget are listed in the evidence. "
        "Trusted: the AST-instrumented interpretation (CPython itself runs it) and the proxies, "
        "cross-checked by replaying sampled paths on unmodified d42 in every run; z3. A "
        "violation is reported only after it reproduces concretely on unmodified d42.")
checks, na = [], []
for i in range(1, 20):
    pid = f"C{i:02d}"
    if os.path.exists(os.path.join(HERE, "harness", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": f"./run.py check {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.py check {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "bounded symbolic (concolic) execution of the real Python code with z3 "
                         "deciding every path condition and assertion",
            "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": pid, "reason": "the check is not built yet"})
json.dump({"version": 1, "setup_cmd": "./run.py selfcheck", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks: the checks instrument d42's source in memory at import."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
