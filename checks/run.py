#!/usr/bin/env python3
"""Decides one property: run.py <property id>"""
import json
import multiprocessing
import os
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/bin/python"
if sys.executable != VENV and os.path.exists(VENV) and not os.environ.get("REI_NOEXEC"):
    os.environ["REI_NOEXEC"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.execv(VENV, [VENV] + sys.argv)
sys.path.insert(0, os.path.join(HERE, "harness"))


def make_one(spec):
    import jobs
    try:
        return "ok", jobs.make(spec)
    except Exception:                                  # noqa: BLE001
        return "crash", (spec, traceback.format_exc())


def main(pid):
    import judge
    return judge.decide(pid, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")), make_one)


if __name__ == "__main__":
    multiprocessing.set_start_method("fork")
    sys.exit(main(sys.argv[1]))
