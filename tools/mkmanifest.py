#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import checks
notes = json.load(open(os.path.join(V, "tools/notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [], "notes": "Specifications in spec/ (TLA+, TLC); drivers in drivers/; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        n = notes[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                            "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": notes.get(i, {}).get("na", "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
