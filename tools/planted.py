#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
(development aid; no check uses it). A meta.json may name "caught_by"."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
s = open(here + "/DESIGN.md").read()
i = s.index("| planted bug |")
j = s.index("\n\n", i)
head = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
open(here + "/DESIGN.md", "w").write(s[:i] + head + "\n".join(rows) + s[j:])
