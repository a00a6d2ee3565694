#!/usr/bin/env python3
"""Rewrites the table of the planted bugs at the end of DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(root + "/seeded/*/meta.json"):
    m = json.load(open(f))
    n = m["needs"].replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s |" % (m["property"], os.path.basename(os.path.dirname(f)), n if len(n) < 140 else n[:136] + " ..."))
s = open(root + "/DESIGN.md").read()
head = "| property | bug | needs |\n|---|---|---|\n"
i = s.index(head) + len(head)
rest = s[i:].split("\n")
k = 0
while k < len(rest) and rest[k].startswith("|"):
    k += 1
open(root + "/DESIGN.md", "w").write(s[:i] + "\n".join(sorted(rows)) + "\n" + "\n".join(rest[k:]))
