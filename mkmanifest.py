#!/usr/bin/env python3
"""Writes MANIFEST.json from manifest.d/*.json style table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
tab = json.load(open(os.path.join(here, "claims.json")))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [], "notes": tab.get("notes", "")}
for p in props:
    i = p["id"]
    c = tab["claims"].get(i)
    if c is None:
        m["not_applicable"].append({"property": i, "reason": tab["na"].get(i, "check under construction")})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": c.get("technique", tab["technique"]), "level": "model_checking", "level_note": c["note"] + " " + tab["trust"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
