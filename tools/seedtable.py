#!/usr/bin/env python3
"""Prints DESIGN.md's table of the planted bugs (seeded/*/meta.json); with -w, puts it in DESIGN.md."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    p = V + "/seeded/%s/meta.json" % n
    if not os.path.exists(p): continue
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (n, m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "-w" in sys.argv:
    p = V + "/DESIGN.md"; s = open(p).read()
    s = s.replace("@@CATCH@@", t) if "@@CATCH@@" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
    open(p, "w").write(s)
else: print(t)
