#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the check registry notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
NOTES = json.load(open(os.path.join(V, "tools", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    n = NOTES.get(p["id"])
    if n and "technique" in n:
        checks.append(dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick python3 check.py {p['id']}",
            thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
            evidence_file=f"evidence/{p['id']}.json", technique=n["technique"], level="model_checking", level_note=n["note"]))
    else:
        na.append(dict(property=p["id"], reason=(n or {}).get("reason", "specification and check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="One TLA+ specification per subsystem under spec/; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
