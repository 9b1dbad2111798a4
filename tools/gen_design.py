#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md from '## Properties' on: tools/design_tail.md and the table of planted bugs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(V+"/DESIGN.md").read().split("## Properties")[0]
rows = "| id | property | breaks | needs |\n|---|---|---|---|\n"
for n in sorted(os.listdir(V+"/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
    rows += "| %s | %s | %s | %s |\n" % (n, m["property"], m["what_it_breaks"], m["needs"])
open(V+"/DESIGN.md", "w").write(head + "## Properties\n\n" + open(V+"/tools/design_tail.md").read() + "\n" + rows)
