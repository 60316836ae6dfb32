#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"),
                                          m.get("caught_by", m["property"] + ", at once")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- seeded -->"), s.index("<!-- /seeded -->")
open(p, "w").write(s[:a] + "<!-- seeded -->\n" + "\n".join(rows) + "\n" + s[b:])
