#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = "<!-- seeds -->\n| bug | caught by | needs |\n|---|---|---|\n"
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/" + d + "/meta.json"))
    t += "| %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " "))
t += "<!-- /seeds -->"
p = H + "/DESIGN.md"
s = open(p).read().replace("@@SEEDS@@", "<!-- seeds --><!-- /seeds -->")
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
