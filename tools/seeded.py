#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.  A meta.json may have "note"."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(V + "/seeded/*/meta.json"):
    d = json.load(open(m)); i = m.split("/")[-2]
    rows.append((d["property"], i, d["needs"], d.get("note", "caught")))
t = "| check | change | needs | result |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- seeded table -->\n).*?(<!-- end of seeded table -->)", lambda x: x.group(1) + t + x.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
