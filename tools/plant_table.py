#!/opt/venv/bin/python
"""Puts the table of planted bugs into DESIGN.md."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
head = "| plant | check | needs |\n|-------|-------|-------|\n"
i = s.index(head) + len(head)
j = s.index("\n\n", i)
open(p, "w").write(s[:i] + "\n".join(rows) + s[j:])
print(len(rows))
