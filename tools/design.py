#!/usr/bin/env python3
"""Rewrites the table of planted bugs and the first line on each property in DESIGN.md from seeded/*/meta.json, properties.jsonl and catalog.py."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs |", "|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append("| %s | %s |" % (d, m["needs"].replace("|", "/").replace("\n", " ")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(?s)<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s)
sys.path.insert(0, ROOT)
from catalog import CATALOG
for l in open(os.path.join(ROOT, "properties.jsonl")):
    q = json.loads(l); c = CATALOG.get(q["id"])
    if not c: continue
    line = "**%s %s** (`%s`; faults: %s). %s." % (q["id"], q["title"], c["scenario"], ", ".join(c["faults"]) or "schedule only", c["what"][0].upper() + c["what"][1:])
    s, n = re.subn(r"(?m)^\*\*%s [^\n]*$" % q["id"], lambda _: line, s, count=1)
    assert n, q["id"]
open(p, "w").write(s)
