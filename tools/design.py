#!/usr/bin/env python3
"""Write DESIGN.md from tools/DESIGN.tmpl.md, the known findings and the seeds"""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(here + "/tools/DESIGN.tmpl.md").read()
fixed = []
for line in json.load(open(here + "/known_findings.json"))["fixed"]:
    prop, commit, what = line.split("property=", 1)[1].split(" ", 2)
    fixed.append("* %s `%s` %s" % (prop, commit, what))
seeds = ["| seed | property (check that catches it) | needs |", "|---|---|---|"]
for path in sorted(glob.glob(here + "/seeded/*/meta.json")):
    meta = json.load(open(path))
    seeds.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(path)), meta["property"], meta["needs"].replace("|", "/")))
open(here + "/DESIGN.md", "w").write(text.replace("@@FIXED@@", "\n".join(sorted(fixed))).replace("@@SEEDED@@", "\n".join(seeds)))
