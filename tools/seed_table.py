#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(root + "/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
body = "\n".join(f"| {b} | {a} | {c} |" for a, b, c in sorted(rows))
p = root + "/DESIGN.md"
s = open(p).read()
head = "| id | property | needs |\n|---|---|---|\n"
a = s.index(head) + len(head)
b = s.index("\n\n", a)
open(p, "w").write(s[:a] + body + s[b:])
