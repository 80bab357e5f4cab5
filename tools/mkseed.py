#!/usr/bin/env python3
"""Makes planted bugs from definitions: mkseed.py FILE.py [id ...]

A definition file lists BUGS: dicts with id, property, edits [(file below framework_python/rei, old, new)], needs, breaks, demo
(Python).  Each is tried in a scratch worktree: the stable tests have to pass, the demonstration has to fail with the change and
pass without it; then the property's check is run on the changed tree."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "1432057"
PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = '''import sys
sys.path.insert(0, "framework_python")
sys.dont_write_bytecode = True
import asyncio
from rei.foundations.clock import DummyClock, MetaClock
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation, HypergraphPort
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.value_node import ValueNode, SemanticValueNode
from rei.factories.foundation_factory import HypergraphFactory


class Clock(MetaClock):
    t = 0

    def get_time_ns(self):
        return self.t

    def get_time_sec(self):
        return self.t / 1e9


clock = Clock()


def node(name, uid, parent=None):
    return HypergraphNode(name, uid.encode(), name, clock, parent)


def edge(name, uid, parent=None):
    return HypergraphEdge(name, uid.encode(), name, clock, parent)


def names(xs):
    return [x.id_name for x in xs]


def run(c):
    return asyncio.run(c)


ALL = lambda x: True

'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **(env or {}))
    e.pop("REI_NOEXEC", None)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, p.stdout.decode("utf-8", "replace")


def stable(tree):
    d = tempfile.mkdtemp()
    try:
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors", "--tb=short", "-o",
            "junit_family=xunit2", "--junitxml=" + d + "/j.xml", "test"], tree + "/framework_python")
        sh(["python3", "/opt/vp/results.py", d + "/o.json", "junit:" + d + "/j.xml"], d)
        ok = set(json.load(open(d + "/o.json"))["passed"])
        return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
    finally:
        shutil.rmtree(d)


def mine(path, diff):
    """removed lines that are not of the original repository"""
    rc, out = sh(["git", "blame", "-s", "HEAD", "--", path], "/repo")
    orig = [ln.startswith("^" + BASE) for ln in out.splitlines()]
    bad, n, good = [], 0, 0
    for ln in diff.splitlines():
        if ln.startswith("@@"):
            n = int(ln.split()[1].split(",")[0][1:])
        elif ln.startswith("---") or ln.startswith("+++"):
            continue
        elif ln.startswith("-"):
            if orig[n - 1]:
                good += 1
            else:
                bad.append(ln)
            n += 1
        elif ln.startswith(" "):
            n += 1
    return good, bad


def make(b, check=True):
    tree = tempfile.mkdtemp(prefix="seed_")
    out = tempfile.mkdtemp(prefix="seedout_")
    try:
        shutil.rmtree(tree)
        rc, o = sh(["git", "-C", "/repo", "worktree", "add", "--detach", tree, "HEAD"], "/repo")
        assert rc == 0, o
        for f, old, new in b["edits"]:
            p = os.path.join(tree, "framework_python/rei", f)
            s = open(p).read()
            assert s.count(old) == 1, "%s: %d occurrences of %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], tree)
        notes, good = [], 0
        for f, _, _ in b["edits"]:
            rel = "framework_python/rei/" + f
            g, bad = mine(rel, sh(["git", "diff", "--", rel], tree)[1])
            good += g
            if bad:
                notes.append("not original: %s" % bad)
        if not good:
            notes.append("NO ORIGINAL LINE CHANGED")
        open(out + "/demo.py", "w").write(HEAD + b["demo"])
        open(out + "/demo.sh", "w").write(SH)
        for n, text in b.get("files", {}).items():
            open(out + "/" + n, "w").write(text)
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r0, o0 = sh(["bash", out + "/demo.sh"], "/repo", timeout=60)
        r1, o1 = sh(["bash", out + "/demo.sh"], tree, timeout=60)
        miss = stable(tree)
        rb, ob = sh([PY, "-m", "compileall", "-q", tree + "/framework_python/rei"], tree)
        ok = r0 == 0 and r1 != 0 and not miss and good
        res = "-"
        if check and ok:
            rc, o = sh(["python3", "checks/run.py", b["property"]], HERE, dict(REI_REPO=tree))
            v = [x for x in o.splitlines() if "VIOLATION" in x or "history" in x]
            res = "CAUGHT %d" % (len(v) // 2) if rc == 1 and v else "MISSED rc=%d %s" % (rc, o[-500:] if rc not in (0, 1) else "")
            if v and rc == 1:
                res += "  " + v[0][:160]
        print("%-28s %s %s %s" % (b["id"], "valid" if ok else "INVALID clean=%d patched=%d missing=%s" % (r0, r1, miss[:3]), res,
                                  " ".join(notes)))
        if not ok:
            print("   clean: %s\n   patched: %s" % (o0[-250:], o1[-150:]))
        if ok:
            d = os.path.join(HERE, "seeded", b["id"])
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(out, d)
            os.chmod(d + "/demo.sh", 0o755)
        sys.stdout.flush()
        return ok, res
    finally:
        sh(["git", "-C", "/repo", "worktree", "remove", "--force", tree], "/repo")
        shutil.rmtree(tree, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


def main():
    sp = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        try:
            make(b)
        except AssertionError as ex:
            print("%-28s BROKEN %s" % (b["id"], ex))


if __name__ == "__main__":
    main()
