#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from plans import PLANS
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in PLANS:
        plan = PLANS[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": plan.get("technique", "runtime monitoring: reference-model oracle over the real code under ASan+UBSan"),
            "level": plan.get("level", "exploration"),
            "level_note": plan.get("note", "Seeded randomized executions of the real code; holds on what was executed: " + plan["rule"]),
        })
    else:
        na.append({"property": p, "reason": "check still being built"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
