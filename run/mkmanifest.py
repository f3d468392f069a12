#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "run"))
from plan import PLAN, NOTE, NA
checks = []
for p in sorted(PLAN):
    checks.append({"property": p, "quick_cmd": "python3 run/check.py %s quick" % p, "thorough_cmd": "python3 run/check.py %s thorough" % p,
                   "technique": "TLA+ specification checked with TLC; behaviours generated from it replayed into the real code, and every recorded trace validated against it by TLC",
                   "level": "model_checking", "level_note": NOTE[p] if p in NOTE else NOTE[""]})
m = {"version": 1, "setup_cmd": "python3 run/setup.py", "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: the checks instrument a copy of the current tree at build time (harness/cmd/instr, go build -overlay). known_findings.txt lists the repaired defects."}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
