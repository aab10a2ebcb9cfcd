#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md plus the table of seeded changes; caught.json is filled by hand-run trials."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
out = open("tools/design_head.md").read()
caught = json.load(open("tools/caught.json"))
out += "| change | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    out += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "not tried"))
open("DESIGN.md", "w").write(out)
