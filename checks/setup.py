#!/usr/bin/env python3
"""Offline preparation: the tools are there and the specification parses."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    sys.path.insert(0, os.path.join(HERE, "harness"))
    import tlc
    for m in ("ReiTrace",):
        p = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY", m + ".tla"], cwd=tlc.SPEC, capture_output=True)
        out = p.stdout.decode()
        if p.returncode or "*** Errors" in out or "Fatal errors" in out:
            print(out[-3000:])
            return 1
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    print("specification parsed")
    return 0


if __name__ == "__main__":
    sys.exit(main())
