#!/usr/bin/env python3
"""Write MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import registry
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    s = registry.PROPS.get(i)
    if s is None:
        na.append({"property": i, "reason": registry.NOT_YET.get(i, "no check has been built for it yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": s.get("technique", "TLA+ specification; TLC judges traces recorded from the real code, and model checks the design"),
        "level": s.get("level", "model_checking"),
        "level_note": s.get("note", registry.NOTE),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks in /repo are needed: the public interface exposes the observed state."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
