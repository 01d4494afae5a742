#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md. seeded/<id>/meta.json names
the property; tools/missed.txt lists the ones its check does not catch."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(os.path.join(here, "tools/missed.txt")).read().split())
rows = ["| change | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, "missed" if d in missed else m["property"], m["needs"].strip().replace("|", "\\|")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
