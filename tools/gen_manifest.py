#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    t = T.get(p["id"])
    if not t:
        na.append({"property": p["id"], "reason": "check under construction"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": t[0], "level": "exploration", "level_note": t[1],
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "check.py builds harness/ (Go, rapid) against /repo's working tree and runs 8 seeded worker processes; see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
