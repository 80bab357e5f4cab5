#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have jobs (run with /opt/venv/bin/python)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import jobs                                            # noqa: E402

NA = {}
NOTE = ("Every recorded call of the real library in randomly generated and directed histories is checked by TLC to be a step the TLA+ "
        "specification allows; the histories are sampled, each is judged completely. Trusts TLC, the projection of elements "
        "through public properties, and the specification.")
NOTEMC = ("TLC explores small systems of the specification completely and checks its invariants and step properties there; the real "
          "library is walked over every transition (or read in every state) of them, and over randomly generated larger "
          "histories, and TLC checks every recorded call to be a step the specification allows. Beyond the small systems the "
          "histories are sampled. Trusts TLC, the projection of elements through public properties, and the specification.")


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in jobs.PROPS:
            checks.append(dict(property=i, quick_cmd="python3 checks/run.py " + i, thorough_cmd="python3 checks/run.py " + i,
                               evidence_file="evidence/%s.json" % i, technique=jobs.TECHNIQUE.get(i, jobs.TECH),
                               level=jobs.level(i), level_note=jobs.NOTES.get(i, NOTEMC if jobs.level(i) == "model_checking" else NOTE)))
        else:
            na.append(dict(property=i, reason=NA.get(i, "its check is not built yet")))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3 checks/setup.py", checks=checks, not_applicable=na,
                       notes="TLA+ specification in spec/, judged by TLC; see DESIGN.md"), f, indent=1)
        f.write("\n")


main()
