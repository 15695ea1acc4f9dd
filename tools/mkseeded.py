#!/usr/bin/env python3
"""Writes the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- planted -->", "<!-- end of planted -->"
rows = ["| change | needs | breaks | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    by = m.get("caught_by", m["property"])
    rows.append("| `%s` | %s | %s | %s |" % (i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), by))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = s.index(BEGIN), s.index(END)
open(p, "w").write(s[:a] + BEGIN + "\n" + "\n".join(rows) + "\n" + s[b:])
