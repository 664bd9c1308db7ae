#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    rows.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j["needs"]))
lines = ["| caught by | planted bugs (what each needs in order to show) |", "|---|---|"]
for p in sorted(rows):
    lines.append(f"| {p} | " + "; ".join(f"`{i}` ({n})" for i, n in rows[p]) + " |")
path = os.path.join(ROOT, "DESIGN.md")
s = open(path).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
s = s[:s.index(a) + len(a)] + "\n".join(lines) + "\n" + s[s.index(b):]
s = s.replace("@COUNT@", str(sum(map(len, rows.values()))))
open(path, "w").write(s)
