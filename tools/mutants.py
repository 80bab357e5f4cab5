"""Mutants of the library, one small change each: which survive the tests, and which the checks then notice.

mutants.py gen OUT             list of mutants (file, line, old, new)
mutants.py run IN OUT WORKERS [ids]  one after another: tests, then a small part of every job, judged by TLC
"""
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "framework_python"
SKIP = ("sample", "/__init__", "accu_fuzzy")
PAIRS = {"get_incoming_relations": "get_outgoing_relations", "INWARDS": "OUTWARDS", "id_name": "uuid", "uuid": "id_name",
         "endpoint": "parent", "sub_nodes": "sub_edges", "OUTWARDS": "BIDIRECTIONAL", "BIDIRECTIONAL": "INWARDS",
         "put": "put_nowait", "values": "keys", "qualified_name": "id_name", "append": "extend", "extend": "append",
         "sub_relations": "sub_ports", "parent": "endpoint", "cnt_node": "cnt_edges", "cnt_edges": "cnt_node"}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in", ast.Lt: "<=",
       ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.MatMult: "*", ast.BitOr: None, ast.Pow: "*"}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def put(n, new, at=None):
        a, z = at or span(n)
        if b[a:z].decode() != new:
            out.append((n.lineno, a, z, b[a:z].decode(), new))
    tree = ast.parse(src)
    docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module, ast.AsyncFunctionDef))
            and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    anno = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            x = getattr(n, f, None)
            if x is not None:
                anno |= {id(y) for y in ast.walk(x)}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            anno |= {id(y) for y in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in anno or id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, "%s %s %s" % (seg(src, n.left), CMP[type(n.ops[0])], seg(src, n.comparators[0])))
            if isinstance(n.ops[0], ast.Is):
                put(n, "%s == %s" % (seg(src, n.left), seg(src, n.comparators[0])))
        elif isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            put(n, "%s %s %s" % (seg(src, n.left), BIN[type(n.op)], seg(src, n.right)))
            put(n, seg(src, n.left))
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                put(n, "(%s)" % seg(src, v))
            put(n, "(%s)" % ((" or " if isinstance(n.op, ast.And) else " and ").join(seg(src, v) for v in n.values)))
        elif isinstance(n, ast.UnaryOp):
            put(n, seg(src, n.operand))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (bytes, type(Ellipsis))):
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v))
            elif isinstance(v, (int, float)):
                put(n, repr(v + 1))
                if v:
                    put(n, repr(v - 1))
            elif isinstance(v, str) and seg(src, n) and seg(src, n)[0] in "'\"":
                put(n, repr(v + "x") if v else "'x'")
                if v:
                    put(n, "''")
        elif isinstance(n, ast.Attribute) and n.attr in PAIRS:
            z = span(n)[1]
            put(n, PAIRS[n.attr], (z - len(n.attr), z))
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant,))):
            put(n, "pass")
        elif isinstance(n, ast.Assign):
            put(n, "pass")
            put(n.value, "None")
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, "return None")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, "(True)" if not isinstance(n, ast.While) else "(False)")
            put(n.test, "(False)")
        elif isinstance(n, ast.Continue):
            put(n, "break")
        elif isinstance(n, ast.Break):
            put(n, "continue")
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                put(t, "(True)")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    x, y = n.args[i], n.args[i + 1]
                    put(n, seg(src, y) + b[span(x)[1]:span(y)[0]].decode() + seg(src, x), (span(x)[0], span(y)[1]))
            for k in n.keywords:
                if k.arg:
                    put(k.value, "None")
            f = seg(src, n.func)
            if f in ("list", "set", "sorted", "copy.deepcopy", "copy.copy", "dict", "np.copy", "np.abs", "np.array", "str", "float", "int") and len(n.args) == 1:
                put(n, seg(src, n.args[0]))
            if f == "filter":
                put(n, seg(src, n.args[1]))
        elif isinstance(n, ast.Raise):
            put(n, "pass")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, seg(src, n.value))
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            put(n, "(yield None)")
        elif isinstance(n, ast.Await):
            put(n, seg(src, n.value))
    res = []
    for l, a, z, old, new in out:
        t = b[:a] + new.encode() + b[z:]
        try:
            ast.parse(t.decode())
        except SyntaxError:
            continue
        res.append(dict(line=l, a=a, z=z, old=old, new=new))
    return res


def gen(dst):
    repo = "/repo"
    fs = subprocess.run(["git", "-C", repo, "ls-files", ROOT], capture_output=True, text=True).stdout.split()
    out = []
    for f in fs:
        if not f.endswith(".py") or "/test/" in f or any(s in f for s in SKIP):
            continue
        for m in mutants(os.path.join(repo, f)):
            out.append(dict(m, id=len(out), file=f))
    json.dump(out, open(dst, "w"), indent=0)
    print(len(out))


PASSED = 88
KIN = "C01 C02 S01 S02 E04"
ABOUT = {"convert_cognilang": "C02", "cognilang_file_icon": "C01 C02", "inertia_context": KIN, "solid_geometry": KIN, "kinematic_semantic": KIN,
         "CognitiveEntity": KIN + " E03", "semantic_factory": KIN + " E03 I01 H05", "map_utility": KIN, "sdf_icon": "S01 S02 C02",
         "conceptual_item": "H01 H02 H03 H04 H05 H06 H07 E02 T01 X01", "base_elements": "H01 H05 H06 H07 E01 E02 E03 F01 N01",
         "tensor_representation": "N01 N02 N03 T02", "hypergraph_traversal": "T04 N01 N02 F01 T02 M03", "abstract_representations": "N01 N02 N03 T02",
         "factorization": "F01 T02", "graph_tensor_icon": "I02 M01 M02 M03 T02", "homomorphism": "X01 N01 M01 T02",
         "query_engine": "Q02 T02 C02", "search_elements": "Q01 T02", "hierarchical_traversal": "T01 T02 X01 Q02",
         "foundation_factory": "E03 I01 H05 H02", "abstract_factory": "I02 E03 I01", "value_node": "E04 M02 E03", "identity": "I01 E03 E02"}


def tests(w):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=20", "--tb=no",
                            "--continue-on-collection-errors", "test"],
                           cwd=os.path.join(w, ROOT), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return "%d passed" % PASSED in p.stdout.decode()


def look(w, seed, pids):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", REI_REPO=w)
    try:
        p = subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "look", str(seed), *pids], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=900)
    except subprocess.TimeoutExpired:
        return "timeout"
    return p.stdout.decode()[-1500:].strip()


def looking(seed, pids, n=3):
    sys.path.insert(0, os.path.join(HERE, "harness"))
    import traceback
    import jobs
    import judge
    import tlc
    known = judge.known()
    tr, who, crash = [], {}, []
    for pid, P in jobs.PROPS.items():
        if pids and pid not in pids:
            continue
        for j in P["jobs"]:
            if hasattr(j["drv"], "graph") or j["tag"] == "size":
                continue
            for i in range(n):
                if j["tag"] in ("all", "wide", "deep") and j["drv"].__class__ is type and pid not in ("H01", "E01") and i:
                    continue
                s = dict(job=j["tag"], pid=pid, i=i, seed=seed)
                try:
                    x = jobs.make(s)
                except BaseException as ex:            # noqa: BLE001
                    crash.append((pid, repr(ex)[:60]))
                    continue
                for t in x if isinstance(x, list) else [x]:
                    tr.append(t)
                    who[t["id"]] = pid, t
    v = tlc.check(tr, workers=1)
    c = {}
    for tid, step, op, out, cl, ex in v.fails:
        pid, t = who[tid]
        if any(x["property"] == pid and x["history"] == tid and x["step"] == step for x in known):
            continue
        f = jobs.Fail(tid, step, op, out, cl, ex, t["ev"][step - 1], t["ev"][:step - 1])
        if jobs.PROPS[pid]["mine"](f):
            c[pid] = c.get(pid, 0) + 1
        else:
            c["other"] = c.get("other", 0) + 1
    if v.evalerr:
        c["evalerr"] = len(v.evalerr)
    if crash:
        c["crash"] = len(crash)
        c["what"] = crash[:2]
    print("RESULT " + json.dumps(c))


def one(m):
    w = "/tmp/mut/w%d" % os.getpid()
    if not os.path.isdir(w):
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git"))
    p = os.path.join(w, m["file"])
    keep = open(p, "rb").read()
    try:
        open(p, "wb").write(keep[:m["a"]] + m["new"].encode() + keep[m["z"]:])
        if not tests(w):
            return dict(m, res="tests")
        o = look(w, 1, [x for k, v in ABOUT.items() if k in m["file"] for x in v.split()])
        i = o.rfind("RESULT ")
        if i < 0:
            return dict(m, res="odd", out=o[-300:])
        c = json.loads(o[i + 7:].splitlines()[0])
        return dict(m, res="seen" if c else "survived", by=c)
    finally:
        open(p, "wb").write(keep)


def run(src, dst, workers, ids):
    ms = json.load(open(src))
    if ids:
        ms = [m for m in ms if m["id"] in ids]
    done = set()
    if os.path.exists(dst):
        done = {json.loads(x)["id"] for x in open(dst)}
    ms = [m for m in ms if m["id"] not in done]
    random.Random(7).shuffle(ms)
    with multiprocessing.Pool(workers) as pool, open(dst, "a") as f:
        for r in pool.imap_unordered(one, ms, chunksize=1):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    elif sys.argv[1] == "look":
        looking(int(sys.argv[2]), sys.argv[3:])
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]), {int(x) for x in sys.argv[5:]})
