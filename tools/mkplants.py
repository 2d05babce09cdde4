#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
mark = "<!-- planted -->\n"
head = s[:s.index(mark)] if mark in s else s.rstrip("\n") + "\n\n"
rows = ["| planted change | what it breaks | needs |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["what_it_breaks"], m["needs"]))
open(p, "w").write(head + mark + "\n".join(rows) + "\n")
