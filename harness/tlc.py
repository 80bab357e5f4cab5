"""Runs TLC on recorded histories and reads its verdicts."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar",
                 "/opt/veriftools/tla/CommunityModules.jar"])


class MachineryError(Exception):
    pass


class Verdict:
    def __init__(self):
        self.fails = []            # (trace id, step, op, out, [clauses], [expected outcomes])
        self.ended = set()
        self.stopped = {}
        self.evalerr = {}          # trace id -> message
        self.states = 0
        self.generated = 0
        self.wall = 0.0

    def merge(self, o):
        self.fails += o.fails
        self.ended |= o.ended
        self.stopped.update(o.stopped)
        self.evalerr.update(o.evalerr)
        self.states += o.states
        self.generated += o.generated
        self.wall += o.wall


LINE = re.compile(r'^"(FAIL|STOP|END)\|(.*)"$')


def _names(txt):
    return re.findall(r'[A-Za-z][\w:.]*', txt)


def java(args, env=None, timeout=600, cwd=None, heap="6g", tmp=None):
    cmd = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + (tmp or tempfile.gettempdir()), "-cp", JARS, "tlc2.TLC"] + args
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def ascii_only(text):
    """JSON without escaped characters: TLC loses them from strings that it puts on disk.  The specification only compares and
    concatenates strings, which this writing of them preserves."""
    return re.sub(r"\\\\|\\u", lambda m: "<u" if m.group(0) == "\\u" else m.group(0), text)


def _run(traces, workers, timeout, meta):
    path = os.path.join(meta, "traces.ndjson")
    with open(path, "w") as f:
        for t in traces:
            f.write(ascii_only(json.dumps(dict(id=t["id"], ev=t["ev"]))) + "\n")
    rc, out = java(["-config", "ReiTrace.cfg", "-workers", str(workers), "-metadir", os.path.join(meta, "tlc"),
                    "-noGenerateSpecTE", "-checkpoint", "0", "ReiTrace.tla"],
                   env={"REI_TRACES": path}, timeout=timeout, tmp=meta)
    v = Verdict()
    for ln in out.splitlines():
        m = LINE.match(ln.strip())
        if not m:
            continue
        parts = m.group(2).split("|")
        tid, step, op, o, cl, ex = parts[0], int(parts[1]), parts[2], parts[3], parts[4], parts[5]
        if m.group(1) == "END":
            v.ended.add(tid)
        elif m.group(1) == "STOP":
            v.stopped[tid] = step
            v.fails.append((tid, step, op, o, ["inv:forest"], []))
        else:
            v.fails.append((tid, step, op, o, _names(cl), _names(ex)))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        v.generated, v.states = int(m.group(1)), int(m.group(2))
    return rc, out, v


def check(traces, workers=8, timeout=800):
    """Validate recorded histories.  Every history gets a verdict, unless there is one with a recorded value that the
    specification cannot even be compared with: that one disagrees, and TLC goes no further."""
    if not traces:
        return Verdict()
    assert len({t["id"] for t in traces}) == len(traces), "trace ids must differ"
    t0 = time.time()
    traces = [t for t in traces if t["ev"]]
    meta = tempfile.mkdtemp(prefix="rei_tlc_")
    try:
        rc, out, v = _run(traces, workers, timeout, meta)
        left = _left(traces, v)
        if rc == 0 and not left:
            expect = sum(len(t["ev"]) + 1 for t in traces if t["id"] not in v.stopped)
            if v.states < expect:
                raise MachineryError("TLC explored %d states, %d expected" % (v.states, expect))
        else:
            tid, msg = _culprit(traces, left, rc, out, workers, timeout, meta)
            v.evalerr[tid] = msg
        v.wall = time.time() - t0
        return v
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def _left(traces, v):
    return [t for t in traces if t["id"] not in v.ended and t["id"] not in v.stopped]


def _culprit(traces, left, rc, out, workers, timeout, meta):
    """the history TLC was working on when it gave up; if it does not say, by halving"""
    while True:
        if "TLC encountered" not in out and "evaluat" not in out and "Attempted" not in out:
            raise MachineryError("TLC failed (%d): %s" % (rc, out[-3000:]))
        bad = re.findall(r"tr = (\d+)", out)
        msg = " / ".join(x for x in out.splitlines() if "ttempted" in x or "evaluat" in x)[:600]
        if bad:
            return traces[int(bad[-1]) - 1]["id"], msg
        while len(left) > 1:
            traces = left[:len(left) // 2]
            rc, out, v = _run(traces, workers, timeout, meta)
            if rc != 0:
                left = _left(traces, v)
                break
            left = left[len(left) // 2:]
        else:
            return left[0]["id"], msg


def check_all(traces, timeout=800, chunk=250000):
    """check in portions that fit into memory"""
    v, part, n = Verdict(), [], 0
    assert len({t["id"] for t in traces}) == len(traces), "trace ids must differ"
    for t in traces:
        part.append(t)
        n += len(t["ev"])
        if n >= chunk:
            v.merge(check(part, timeout=timeout))
            part, n = [], 0
    v.merge(check(part, timeout=timeout))
    return v
