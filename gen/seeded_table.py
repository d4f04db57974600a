#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (for development; no check reads it)"""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], f.split("/")[-2], m["what_it_breaks"].replace("\n", " ").replace("|", "\\|"), m.get("missed", "")))
rows.sort()
t = "| property whose check catches it | bug | what it breaks |\n|---|---|---|\n" + "".join(f"| {p} | {i} | {w} |\n" for p, i, w, _ in rows)
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
block = f"<!-- seeded -->\n{t}<!-- /seeded -->"
s = s.replace("@SEEDED@", block) if "@SEEDED@" in s else re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: block, s, flags=re.S)
open(p, "w").write(s)
