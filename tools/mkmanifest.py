#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and suites.py: a property is claimed iff it has a suite."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import suites
TECH = "symbolic execution of the compiled Rust (LLVM IR) with an SMT/SAT decision of every assertion"
TECH_CPP = "symbolic execution of the generated C++ (LLVM IR) with an SMT/SAT decision of every assertion"
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in suites.SUITES:
        s = suites.SUITES[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": TECH_CPP if s.get("cpp") else TECH, "level": "model_checking",
                       "level_note": "Bounded: " + s["bounds"] + ". Not covered: " + s.get("outside", "") + ". Every counterexample is replayed natively against the real code before it is reported."})
    else:
        na.append({"property": i, "reason": suites.NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
