#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os
from registry import PROPS
root = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PROPS:
        na.append({"property": i, "reason": "the monitor for this property is not built yet"})
        continue
    s = PROPS[i]
    checks.append({
        "property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "runtime monitoring: " + s["technique"], "level": "exploration",
        "level_note": "Held on every execution observed (counts in the evidence file): " + s["rule"] + "."
                      + (" Assumes: " + "; ".join(s["assumptions"]) + "." if s.get("assumptions") else ""),
    })
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
           "notes": "Instrumented copies of the sources are generated at build time (overlay); /repo carries no hooks, only fix: commits."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

# the table in DESIGN.md: variants, workload and assumptions come from the registry
path = os.path.join(root, "DESIGN.md")
out = []
for line in open(path):
    c = line.rstrip("\n").split(" | ")
    i = c[0][2:]
    if len(c) == 5 and i in PROPS and line.startswith("| C"):
        s = PROPS[i]
        line = "| %s | %s | %s | %s | %s |\n" % (i, ", ".join(v["name"] for v in s["variants"]), c[2], s["rule"],
                                               "; ".join(s.get("assumptions", [])) or "-")
    out.append(line)
open(path, "w").write("".join(out))
