#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property (and the check that catches it) | breaks | needs |", "|----|----|----|----|"]
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = f"{root}/DESIGN.md"
t = open(p).read()
new = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
if "@@SEEDED@@" in t:
    t = t.replace("@@SEEDED@@", new)
else:
    t = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda m: new, t, flags=re.S)
open(p, "w").write(t)
