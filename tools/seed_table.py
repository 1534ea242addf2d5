#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Change | Check that catches it | What it breaks | Needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], c(m["what_it_breaks"]), c(m["needs"])))
d = open(H + "/DESIGN.md").read()
i = d.index("## Planted bugs")
head = d[:i] + """## Planted bugs

Each lies in `seeded/<id>`: made from the statement and the code, confirmed to pass the existing tests,
and caught by the quick check of its property. (`tools/seed_table.py` writes this table.)

"""
open(H + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
