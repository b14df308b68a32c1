#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
by = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(f.split("/")[1])
rows = "| property | planted changes its check catches |\n|---|---|\n" + "".join(
    "| %s | %s |\n" % (p, ", ".join(by[p])) for p in sorted(by))
s = open("DESIGN.md").read()
s = re.sub(r"\| property \| planted changes.*?\n\n", lambda m: rows + "\n", s, flags=re.S)
s = re.sub(r"`seeded/` holds \d+", "`seeded/` holds %d" % sum(map(len, by.values())), s)
open("DESIGN.md", "w").write(s)
