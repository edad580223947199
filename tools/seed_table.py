#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json ("note" is optional)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"; s = open(p).read()
old = {m[1]: m[2] for m in re.finditer(r"^\| (\S+) \| C\d\d \| .* \| (.*) \|$", s, re.M)}
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], m.get("note") or old.get(i, "caught")))
t = "| id | caught by | needs | note |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = re.sub(r"\| id \| caught by .*?\n(?:\|.*\n)+", lambda _: t, s)
open(p, "w").write(s)
