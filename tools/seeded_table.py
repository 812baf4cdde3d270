#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(R + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"]))
t = "| caught by | bug | what it breaks |\n|---|---|---|\n" + "".join(
    "| %s | %s | %s |\n" % (p, i, w.replace("|", "/").replace("\n", " ")) for p, i, w in sorted(rows))
p = R + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeded:begin -->\n", "<!-- seeded:end -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
