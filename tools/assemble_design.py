"""Puts DESIGN.md together: tools/design_head.md, the properties, the rest, and the table of planted bugs.

    assemble_design.py SWEEP.json     results of tools/sweep.py
"""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
parts = [open(os.path.join(here, n)).read() for n in ("design_head.md", "design_properties.md", "design_rest.md")]
res = json.load(open(sys.argv[1]))
seeded = os.path.join(here, "..", "seeded")
rows = []
for i in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, i, "meta.json")))
    v = res.get(i, [m["property"], "?", 0])
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], v[1], m["needs"].replace("|", "/")))
caught = sum("| caught |" in r for r in rows)
parts.append("## Planted bugs and the checks that catch them\n\n%d planted, %d caught by the quick check of their property at "
             "seed 1.\n\n| bug | check | quick | needs |\n|-----|-------|-------|-------|\n%s\n" % (len(rows), caught, "\n".join(rows)))
open(os.path.join(here, "..", "DESIGN.md"), "w").write("\n".join(p.strip("\n") + "\n" for p in parts))
