#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
text = "<!-- seeded -->\n| bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- end seeded -->"
p = here + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- seeded -->.*<!-- end seeded -->", lambda _: text, t, flags=re.S)
open(p, "w").write(t)
