#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/coverage_notes.json"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
notes = json.load(open(H + "/tools/coverage_notes.json"))
HOOK = "ee08fb7"
import subprocess
full = subprocess.check_output(["git", "-C", "/repo", "rev-parse", HOOK], text=True).strip()
checks, na = [], []
for p in props:
    i = p["id"]
    n = notes.get(i)
    if not n or n.get("not_applicable"):
        na.append({"property": i, "reason": (n or {}).get("not_applicable", "check not built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s quick" % i,
        "thorough_cmd": "python3 run.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": n["technique"],
        "level": "model_checking",
        "level_note": n["bounds"] + " Assumes: " + "; ".join(n["assumptions"]) + ".",
    })
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {
        "guard": "numeric_mc",
        "enable": "RUSTFLAGS='--cfg numeric_mc' (only for the concurrency checks C09 and C10)",
        "source_commits": [full],
    },
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
