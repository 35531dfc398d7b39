#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | what it needs | caught by |", "|---|---|---|"]
caught = {}
p = os.path.join(D, "tools", "seed_caught.json")
if os.path.exists(p): caught = json.load(open(p))
for s in sorted(os.listdir(D + "/seeded")):
    m = json.load(open(f"{D}/seeded/{s}/meta.json"))
    c = caught.get(s, [m["property"]])
    rows.append(f"| {s} | {m['needs']} | {', '.join(c)} |")
t = open(D + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = t.index(a) + len(a), t.index(b)
open(D + "/DESIGN.md", "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
