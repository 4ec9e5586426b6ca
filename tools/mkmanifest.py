#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property with a contract module in specs/, the reasons for the others."""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
NA = {
    "C28": "the constructions call an interface of the wulffpack dependency that the installed release no longer has, so none of them returns; "
           "there is no run for a postcondition to speak about and the contract of that dependency is not available to write against",
    "C29": "the value is a histogram: its contract needs counting of pairs per bin over nested variable-size groups, which neither the loop rules nor the "
           "solvers used here can discharge, and a bounded stand-in alone would not be a decision by proof",
}
PENDING = "no contract for this property has been discharged yet"
NOTE = ("Postconditions over the real functions, generated by executing the instrumented source symbolically and discharged by normal forms, Groebner "
        "bases and z3 for all inputs and sizes; the same contracts are evaluated on the real package. Real arithmetic instead of floating point; library "
        "contracts of numpy/scipy in vc/ are trusted. ")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(ROOT, "specs", pid.lower() + ".py")
    if os.path.exists(f) and pid not in NA:
        m = importlib.import_module("specs." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % pid,
            "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": getattr(m, "TECHNIQUE", "contracts on the real functions, verification conditions from its symbolic execution, discharged by algebra and SMT"),
            "level": getattr(m, "LEVEL", "proof"),
            "level_note": NOTE + getattr(m, "NOTE", ""),
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, PENDING)})
d = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selfcheck.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the machinery instruments the source in memory on every run."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as o:
    json.dump(d, o, indent=1)
    o.write("\n")
print(len(checks), "claimed;", ", ".join(x["property"] for x in na), "not")
