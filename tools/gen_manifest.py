#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick",
                           thorough_cmd=f"python3 check.py {i} thorough",
                           technique="symbolic execution of the compiled sources, assertions decided by z3, "
                                     "counterexamples replayed natively",
                           level=c.get("level", "model_checking"), level_note=c.get("note", c.get("outside", "")),
                           evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check has been built for this property")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         hooks=dict(guard="", enable="", source_commits=[]), not_applicable=na,
         notes="check.py compiles harness/<x>.cpp with /repo's current sources to LLVM bitcode and explores it with "
               "the symbolic executor in engine/; see DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
