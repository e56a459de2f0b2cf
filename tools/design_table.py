#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from their descriptions."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for name in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", name, "meta.json")))
    rows.append((m["property"], name, m["needs"], m["what_it_breaks"]))
rows.sort()
table = "| caught by | bug | needs | breaks |\n| --- | --- | --- | --- |\n"
table += "".join(f"| {p} | `{n}` | {a} | {b} |\n" for p, n, a, b in rows)
path = os.path.join(root, "DESIGN.md")
s = open(path).read()
s = re.sub(r"<!-- bugs -->\n.*?<!-- end -->", lambda _: f"<!-- bugs -->\n{table}<!-- end -->", s, flags=re.S)
open(path, "w").write(s)
print(len(rows), "bugs")
