#!/usr/bin/env python3
"""Appends the table of planted changes (from seeded/*/meta.json and tools/caught.json) to DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
mark = "<!-- seeds -->\n"
head = s.split(mark)[0]
also = json.load(open(os.path.join(V, "tools/caught.json")))
rows = ["| planted change | property | caught by | what it needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {also.get(d, m['property'])} | {m['needs']} |")
open(p, "w").write(head + mark + "\n".join(rows) + "\n")
