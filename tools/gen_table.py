#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- table of planted bugs -->\n"
rows = []
for name in sorted(os.listdir(f"{VERIF}/seeded")):
    meta = json.load(open(f"{VERIF}/seeded/{name}/meta.json"))
    rows.append(f"| {name} | {meta['needs']} | {meta.get('caught', meta['property'])} |\n")
text = open(f"{VERIF}/DESIGN.md").read().split(MARK)[0]
open(f"{VERIF}/DESIGN.md", "w").write(
    text + MARK + "| planted bug | needs | caught by |\n|---|---|---|\n" + "".join(rows))
