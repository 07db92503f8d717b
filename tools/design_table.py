#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property (caught by its quick check) | needs |", "|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"] + (" – **missed**: " + m["missed"] if m.get("missed") else ""), m["needs"].replace("|", "/").replace("\n", " ")))
p = H + "/DESIGN.md"
s = open(p).read()
new = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->"
s = s.replace("SEEDED-TABLE", new) if "SEEDED-TABLE" in s else re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: new, s, flags=re.S)
open(p, "w").write(s)
