#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a contract module."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
TECH = "contract-based deductive verification of the real code: path-complete symbolic execution of the instrumented functions against contracts, obligations discharged by exact polynomial normalisation, z3, nlsat and cvc5"

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NOTES and os.path.exists(os.path.join(HERE, "contracts", p.lower() + ".py")):
        level, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": f"./check.py {p}", "thorough_cmd": f"./check.py {p} --tier thorough", "technique": TECH, "level": level, "level_note": note})
    else:
        na.append({"property": p, "reason": NOTES.get(p, ["", "no check has been built for it yet"])[1]})
json.dump({"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
