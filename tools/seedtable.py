#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = sorted((json.load(open(f))["property"], os.path.basename(os.path.dirname(f)), json.load(open(f))["needs"]) for f in glob.glob("seeded/*/meta.json"))
t = "| bug | caught by | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (i, p, n) for p, i, n in rows)
s = open("DESIGN.md").read()
a = s.index("| bug | caught by")
b = s.index("\n\n", a) + 1
open("DESIGN.md", "w").write(s[:a] + t + s[b:])
