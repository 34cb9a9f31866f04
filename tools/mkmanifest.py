#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import specs  # noqa: E402

checks, na = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in specs.SPECS:
        s = specs.SPECS[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 tools/check.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % p,
            "technique": s.get("technique", "differential runtime monitoring of random histories under sanitizers"),
            "level": s["level"],
            "level_note": s.get("note", "decides the executions of the generated workloads; see DESIGN.md"),
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
