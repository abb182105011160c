#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | caught by | what it breaks |", "|---|---|---|"]
for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"].replace("|", "/")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", t)
else:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
