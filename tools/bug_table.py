#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
MARK = "<!-- planted bugs: written by tools/bug_table.py -->"
END = "<!-- end of planted bugs -->"
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(here + "/DESIGN.md").read()
rows = ["", "| bug | property, caught by | needs | what it breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| {} | {} | {} | {} |".format(os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
head, _, tail = text.partition(MARK)
tail = tail.partition(END)[2]
open(here + "/DESIGN.md", "w").write(head + MARK + "\n".join(rows) + "\n" + END + (tail or "\n"))
