#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md (between the SEEDTABLE markers) from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
late = {"b09", "b12", "b22", "b27", "b31", "b36", "b38", "b41", "b46", "b48", "b49", "b50", "b51", "b52", "b53", "b62", "b63", "b64", "b65"}
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    star = " *" if d.split("-")[0] in late else ""
    rows.append(f"| {d}{star} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |".replace("\n", " "))
f = root + "/DESIGN.md"
s = open(f).read()
body = "<!-- seedtable -->\n" + "\n".join(rows) + "\n<!-- /seedtable -->"
if "<!-- seedtable -->" in s:
    s = re.sub(r"<!-- seedtable -->.*<!-- /seedtable -->", lambda _: body, s, flags=re.S)
else:
    s = s.replace("SEEDTABLE", body)
open(f, "w").write(s)
