#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(f"{R}/tools/bugnotes.json"))
rows = []
for s in sorted(os.listdir(f"{R}/seeded")):
    m = json.load(open(f"{R}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {NOTE.get(s, '')} |")
d = open(f"{R}/DESIGN.md").read()
head = "## Planted bugs\n"
d = d.split(head)[0] + head + """
Each is caught by the check of the property it belongs to (applied with `tools/trybugs.sh`, seed 1, quick
tier).  The last column says what had to be strengthened before it was; empty: caught at the first try.

| planted bug | caught by | needs | strengthened |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(f"{R}/DESIGN.md", "w").write(d)
