#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (development aid). Caught-by comes from seeded-results.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(V, "seeded-results.json")))
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, 'not run')} |")
t = open(os.path.join(V, "DESIGN.md")).read()
a, b = "<!-- planted -->", "<!-- /planted -->"
if "@@MATRIX@@" in t:
    t = t.replace("@@MATRIX@@", a + "\n" + b)
i, j = t.index(a), t.index(b)
t = t[:i] + a + "\n| id | property | needs | caught by |\n|--|--|--|--|\n" + "\n".join(rows) + "\n" + t[j:]
open(os.path.join(V, "DESIGN.md"), "w").write(t)
