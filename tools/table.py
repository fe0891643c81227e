#!/usr/bin/env python3
"""Rewrites the table of section 7 of DESIGN.md from work/hunt.json."""
import json, os, re
V = "/verif"
h = json.load(open(V + "/work/hunt.json"))
rows = []
for id in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{id}/meta.json"))
    c = sorted(k.split(":")[1] for k, v in h.items() if k.split(":")[0] == id and v["caught"])
    n = sorted(k.split(":")[1] for k, v in h.items() if k.split(":")[0] == id and not v["caught"])
    rows.append(f"| {id} | {m['property']} | {', '.join(c) or '-'} | {', '.join(n) or ''} | {m['needs']} |")
t = "| planted bug | breaks | caught by | missed by | needs |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- table -->.*?<!-- /table -->\n", lambda m: "<!-- table -->\n" + t + "<!-- /table -->\n", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
