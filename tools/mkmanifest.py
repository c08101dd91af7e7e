#!/usr/bin/env python3
"""Generates MANIFEST.json from checks.json (deciding method, notes) and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(H, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: monitors observe the exported API and the real binary. Genuine defects repaired by fix: commits are listed in known_findings.json."}
for p in props:
    c = checks.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "no check registered yet"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
