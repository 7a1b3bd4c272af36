#!/usr/bin/env python3
"""Writes BOUNDS.md: what every entry point of every check covers."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import json
from checks import CHECKS
titles = {}
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)
    titles[p["id"]] = p["title"]
out = ["# Bounds of the checks", "", "Generated by `tools/gen_bounds.py` from `checks.py`. Within these bounds every value is covered.",
       "Entries marked (thorough) only run with `VERIF_TIER=thorough`.", ""]
for c in sorted(CHECKS):
    out += [f"## {c} {titles.get(c, '')}", ""]
    for e in CHECKS[c]["entries"]:
        mark = " (thorough)" if e.get("thorough_only") else ""
        out.append(f"* `{e['entry']}`{mark}: {e.get('bounds', '')}")
    out.append("")
open(f"{V}/BOUNDS.md", "w").write("\n".join(out))
