#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |\n")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = "| planted bug | property (caught by its quick check) | needs |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = i
while s.startswith("| ", j):
    j = s.index("\n", j) + 1
open(p, "w").write(s[:i] + "".join(rows) + s[j:])
