#!/usr/bin/env python3
"""Rewrites the tables at the end of DESIGN.md from seeded/*/meta.json and known_findings.json"""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + "/DESIGN.md").read(); s = s[:s.index("<!-- tables -->")]
s += "<!-- tables -->\n## Seeded changes and the check that catches them\nEach was confirmed to build, pass the stable tests and fail its demonstration; all are caught by the named check (last run of tools/mkseed.py).\n\n|id|caught by|what it breaks|\n|-|-|-|\n"
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f)); s += "|%s|%s|%s|\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/"))
k = json.load(open(R + "/known_findings.json")); k = k if isinstance(k, list) else list(k.values())[0]
s += "\n## Genuine defects repaired\n" + "".join("* %s\n" % e["fixed"][7:] for e in k if "fixed" in e)
s += "\n## Known findings (not repaired)\n" + "".join("* %s %s: %s\n" % (e["property"], e["contract"], e["what"]) for e in k if "what" in e)
open(R + "/DESIGN.md", "w").write(s)
