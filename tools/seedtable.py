"""Rewrites section 11 of DESIGN.md from the planted bugs' descriptions."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = f"{ROOT}/DESIGN.md"
t = open(p).read()
head = "## 11. Planted bugs\n"
body = head + ("\nEvery one is caught by the check of its own property (exit 1 with its VIOLATION line); demonstrations and patches are in\n"
               "`seeded/`.  Which check catches which change is the property column.\n\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n\n")
pat = re.compile(r"## 11\. Planted bugs\n.*?(?=## 12\.|\Z)", re.S)
t = pat.sub(lambda m: body, t) if pat.search(t) else t + body
open(p, "w").write(t)
