#!/usr/bin/env python3
"""Rewrites the list of properties in DESIGN.md from properties.jsonl and coverage_notes.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = json.load(open(H + "/tools/coverage_notes.json"))
out = []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)
    n = N[p["id"]]
    out.append("* **%s %s.** *How:* %s. *Enumerated:* %s *Relies on:* %s." % (p["id"], p["title"], n["technique"], n["bounds"], "; ".join(n["assumptions"])))
d = open(H + "/DESIGN.md").read()
a = d.index("### Property by property")
b = d.index("\n## ", a)
d = d[:a] + "### Property by property\n\n(Written by `tools/design_properties.py`.) Numbers in parentheses are those of the thorough tier.\n\n" + "\n".join(out) + "\n" + d[b:]
open(H + "/DESIGN.md", "w").write(d)
