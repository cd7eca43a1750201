#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from DESIGN.in.md, properties.jsonl, MANIFEST.json, seeded/ and tools/caught.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = json.load(open(V + "/MANIFEST.json"))
notes = {c["property"]: c["level_note"] for c in m["checks"]}
na = {c["property"]: c["reason"] for c in m.get("not_applicable", [])}
how = json.load(open(V + "/tools/how.json"))
t = []
for p in ps:
    i = p["id"]
    if i in notes:
        t.append(f"**{i} {p['title']}.** {how.get(i, 'Symbolic execution of the functions named in properties.jsonl against the specification in the harness.')} Bounds: {notes[i]}.\n")
    else:
        t.append(f"**{i} {p['title']}.** Not applicable: {na.get(i, '')}\n")
c = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
s = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); x = json.load(open(d))
    s.append(f"| {i} | {x['property']} | {x['needs']} | {c.get(i, 'not run')} |")
k = json.load(open(V + "/known_findings.json"))
fx = "\n".join("* " + x.replace("fixed: property=", "", 1) for x in k["fixed"])
src = open(V + "/DESIGN.in.md").read()
open(V + "/DESIGN.md", "w").write(src.replace("PROPS_TABLE", "\n".join(t)).replace("FIXED_LIST", fx).replace("SEED_TABLE", "\n".join(s)))
