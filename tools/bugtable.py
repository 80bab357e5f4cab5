#!/usr/bin/env python3
"""Writes DESIGN.md's table of planted bugs from the output of runs: bugtable.py RESULTS (lines: id property rc=..)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted bugs -->\n"


def main(path):
    p = os.path.join(HERE, "DESIGN.md")
    head, _, old = open(p).read().partition(MARK)
    got = {}
    for ln in old.splitlines():                      # what is not in the file keeps its entry
        x = [c.strip() for c in ln.strip("|").split("|")]
        if len(x) >= 3 and x[-1] not in ("?", "found by", "---"):
            got[x[0]] = "missed" not in x[-1]
    for ln in open(path):
        x = ln.split()
        if len(x) > 2 and x[2].startswith("rc="):
            got[x[0]] = x[2] == "rc=1"
    rows = ["| bug | needs | found by |", "|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        rows.append("| %s | %s | %s |" % (d, m["needs"], {True: m["property"], False: "**missed**", None: "?"}[got.get(d)]))
    open(p, "w").write(head + MARK + "\n".join(rows) + "\n")


main(sys.argv[1])
