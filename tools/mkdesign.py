#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md (table of planted bugs) from seeded/*/meta.json"""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["## 6. Planted bugs (`/verif/seeded`) and the checks that catch them", "",
        "Each was written from a property's text, passes the 257 tests and has a demonstration; no check reads the folder.", "",
        "| id | breaks | needs | caught by |", "|---|---|---|---|"]
S = os.path.join(V, "seeded")
also = {}
p = os.path.join(V, "tools", "caught.json")
if os.path.exists(p):
    also = json.load(open(p))
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), ", ".join(also.get(d, [m["property"]])) or "none (missed)"))
t = open(os.path.join(V, "DESIGN.md")).read()
new = "\n".join(rows) + "\n"
if "@SEEDS@" in t:
    t = t.replace("@SEEDS@\n", new)
else:
    t = re.sub(r"## 6\. .*?\n(?=\n## 7\.)", lambda m: new, t, flags=re.S)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
