#!/usr/bin/env python3
"""Write DESIGN.md from its parts, properties.jsonl, MANIFEST.json and seeded/*/meta.json."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(V + "/tools/design_props.py").read())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
tech = json.load(open(V + "/tools/techniques.json"))
cost = json.load(open(V + "/tools/costs.json"))
o = open(V + "/tools/design_head.md").read() + "\n"
for p in props:
    i = p["id"]
    o += "* **%s %s** — *%s.* %s Quick: %s cases, %s s.\n" % (i, p["title"], tech[i][0], T[i], cost[i][0], cost[i][1])
o += "\n" + open(V + "/tools/design_tail.md").read()
res = {}
if os.path.exists(V + "/tools/caught.json"):
    res = json.load(open(V + "/tools/caught.json"))
o += "| change | needs | breaks | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    e = lambda s: s.replace("|", "/").replace("\n", " ")
    o += "| %s | %s | %s | %s |\n" % (n, e(m["needs"]), e(m["what_it_breaks"]), res.get(n, m["property"]))
open(V + "/DESIGN.md", "w").write(o)
