#!/usr/bin/env python3
"""Fill tools/DESIGN.tmpl.md with the findings, the planted bugs and their results -> DESIGN.md"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = json.load(open(R + "/known_findings.json"))["findings"]
res = json.load(open(R + "/seeded/RESULTS.json"))
fixed = "\n".join(f"* {f['property']} `{f['commit']}` - {f['what']}" for f in F if f["status"] == "fixed")
known = "\n".join(f"* {f['property']} `{f['id']}` - {f['what']}" for f in F if f["status"] == "known")
rows = ["| planted bug | property | needs | caught by (clauses) |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    if not os.path.isdir(f"{R}/seeded/{d}"):
        continue
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    r = res.get(d, {})
    by = "; ".join(f"{p} ({', '.join(c)})" for p, c in sorted(r.items()) if c is not None) or "missed"
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {by} |")
s = open(R + "/tools/DESIGN.tmpl.md").read()
open(R + "/DESIGN.md", "w").write(s.replace("@@FIXED@@", fixed).replace("@@KNOWN@@", known).replace("@@SEEDS@@", "\n".join(rows)))
