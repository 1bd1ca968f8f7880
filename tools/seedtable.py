#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed/caught.json (development helper, never run by a check)."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "tools", "seed", "caught.json"); caught = json.load(open(p)) if os.path.exists(p) else {}
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json"))); n = os.path.basename(d)
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), caught.get(n, m["property"])))
f = os.path.join(R, "DESIGN.md"); t = open(f).read()
body = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = t.replace("@@SEEDTABLE@@", body) if "@@SEEDTABLE@@" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: body, t, flags=re.S)
open(f, "w").write(t)
