#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for bug in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    with open(os.path.join(ROOT, "seeded", bug, "meta.json"), encoding="utf-8") as f:
        m = json.load(f)
    rows.append(f"| {bug} | {m['needs'].replace('|', chr(92) + '|')} | {m['property']} |")
path = os.path.join(ROOT, "DESIGN.md")
with open(path, encoding="utf-8") as f:
    s = f.read()
s = re.sub(r"\| bug \| needs \|.*?(\n\n|\Z)", lambda m: "\n".join(rows) + "\n" + m.group(1)[1:], s, flags=re.S)
with open(path, "w", encoding="utf-8") as f:
    f.write(s)
