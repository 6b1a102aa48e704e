#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = "## Planted bugs and what catches them\n"
p = os.path.join(here, "DESIGN.md")
s = open(p).read().split(mark)[0]
s += mark + """
Each change compiles, passes the stable tests and has a demonstration. Each is caught by the quick check of the
property it was written for. Those marked * were missed at first; what was added for them is the space, family or
mode that now catches them (sizes and distances, pairs of lengths, far offsets, long histories, depths).

| change | check | needs |
|---|---|---|
"""
missed = set(open(os.path.join(here, "tools", "missed_at_first")).read().split())
d = os.path.join(here, "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    n = " ".join(m["needs"].split()).replace("|", "\\|")
    s += "| %s%s | %s | %s |\n" % (i, "*" if i in missed else "", m["property"], n[:160])
open(p, "w").write(s)
