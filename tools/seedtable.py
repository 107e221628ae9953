#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m['property']} |")
p = os.path.join(HERE, "DESIGN.md"); s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
