#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl"""
import json, os, checks
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
T = "bounded symbolic execution of the real code's LLVM IR with Z3 deciding every assertion, access and trap; counterexamples replayed natively under ASan"
m = dict(version=1, setup_cmd="python3 vf.py setup", checks=[], not_applicable=[],
  notes="Checks compile /repo's current sources to LLVM IR, execute the relevant functions symbolically (engine/), and let Z3 decide. See DESIGN.md.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 vf.py check %s --tier quick" % i, thorough_cmd="python3 vf.py check %s --tier thorough" % i,
            technique=c.get("technique", T), level="other", level_note=c.get("note", "Solver verdict over all values within the stated bounds: " + c["bounds"] + ". Outside the bounds nothing is claimed.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=checks.NA.get(i, "no check built yet")))
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
