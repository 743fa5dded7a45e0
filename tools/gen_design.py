#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (bounds per property, planted bugs)."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import jobs  # noqa: E402


def table(name, rows):
    global text
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    text = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n" + "\n".join(rows) + "\n" + b, text, flags=re.S)


with open(os.path.join(HERE, "DESIGN.md")) as f:
    text = f.read()
rows = ["| property | quick | thorough |", "|---|---|---|"]
for k in sorted(jobs.CHECKS):
    c = jobs.CHECKS[k]
    n = {t: sum(len(f) for f in c["jobs"][t]) for t in c["jobs"]}
    rows.append("| %s | %s (%d jobs) | %s (%d jobs) |" % (k, c["bounds"]["quick"], n["quick"], c["bounds"]["thorough"], n["thorough"]))
table("bounds", rows)
rows = ["| planted bug | breaks | needs |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    with open(os.path.join(d, "meta.json")) as f:
        m = json.load(f)
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["what_it_breaks"], m["needs"]))
table("seeded", rows)
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(text)
