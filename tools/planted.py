#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json. `also` says which other checks were seen to catch them."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- table made by tools/planted.py -->\n"
rows = []
for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    with open(os.path.join(ROOT, "seeded", name, "meta.json")) as f:
        m = json.load(f)
    rows.append("| %s | %s | %s |\n" % (name, m["property"], m["needs"].split("\n")[0].replace("|", "/")))
path = os.path.join(ROOT, "DESIGN.md")
with open(path) as f:
    text = f.read()
head = text.split(MARK)[0]
with open(path, "w") as f:
    f.write(head + MARK + "| Bug | caught by | needs |\n|---|---|---|\n" + "".join(sorted(rows, key=lambda r: (r.split("|")[2], r))))
