"""Walks the real library over every transition of a state graph that TLC explored (ReiMC)."""
import hashlib
import os
import random
import shutil
import tempfile
from collections import deque

from kin import KinWorld, Model
from observe import Obs, Traversal
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.hypergraph.factorization_operations import (Factorization2SubsetOperation,
                                                     RelationFactorization2SubsetOperation)
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer

CACHE = {}
PROPS = ["RejectKeeps", "NothingLost", "Stamped", "NeverBack", "AddsLast", "RemovesResult", "Connects", "Disconnects"]
INVS = ["InvForest", "InvNames", "InvDepth", "InvCounted", "InvNumbered", "InvUids", "InvPorts", "InvTotal", "InvKin", "InvHyper"]


class Graph:
    """states are numbers; out[s]: list of (call, outcome, successor)"""

    def __init__(self, conf, nels, nrel):
        import tlc
        self.conf, self.nels, self.nrel = conf, nels, nrel
        meta = tempfile.mkdtemp(prefix="rei_mc_")
        try:
            cfg = os.path.join(meta, "MC.cfg")
            with open(cfg, "w") as f:
                f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS Conf = "%s" NEls = %d NRel = %d Export = TRUE\n'
                        'INVARIANTS %s\nPROPERTIES %s\n' % (conf, nels, nrel, " ".join(INVS), " ".join(PROPS)))
            rc, out = tlc.java(["-config", cfg, "-workers", "8", "-metadir", os.path.join(meta, "s"), "-noGenerateSpecTE",
                                "-checkpoint", "0", "ReiMC.tla"], timeout=700, tmp=meta)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        if rc != 0 or "No error has been found" not in out:
            raise tlc.MachineryError("the specification itself fails in the small system %s: %s" % (conf, out[-3000:]))
        num, edges = {}, set()
        for ln in out.splitlines():
            if ln.startswith('"T|'):
                a, call, o, b = ln[3:-1].split("|")
                edges.add((a, call, o, b))
        # the start is the shortest key of a state nothing but itself leads to ... it is given by its shape
        names = {x for e in edges for x in (e[0], e[3])}
        for n in sorted(names, key=lambda x: hashlib.md5(x.encode()).digest()):
            num[n] = len(num)
        self.n = len(num)
        self.near = {num[x]: i for i, x in enumerate(sorted(names))}     # similar states have close numbers
        self.out = [[] for _ in range(self.n)]
        for a, call, o, b in sorted(edges):
            self.out[num[a]].append((call, o, num[b]))
        self.ambiguous = len(edges) - len({e[:3] for e in edges})
        self.start = num[self.first(names)]
        self.transitions = len(edges)

    def first(self, names):
        z = lambda n: "<<" + ", ".join(["<<>>"] * n) + ">>"
        if self.conf in ("hier", "plain"):
            return z(self.nels)
        if self.conf == "attr":
            return "<<1, 2>>"
        if self.conf == "kin":
            return min(names, key=len)
        if self.conf == "fac":
            return min(names, key=lambda x: (len(x), x[-1]))
        return min(names, key=lambda x: (len(x), x.count("6")))


def graph(conf, nels, nrel):
    k = (conf, nels, nrel)
    if k not in CACHE:
        CACHE[k] = Graph(*k)
    return CACHE[k]


HIER = [("node", "n", "a"), ("node", "n", "b"), ("node", "m", "a"), ("edge", "n", "c"), ("node", "m", "d")]
CONN = [("edge", "k", "a"), ("edge", "k", "b"), ("node", "n", "c"), ("node", "n", "d")]


class Walk:
    def __init__(self, g, name, rng):
        self.g, self.rng = g, rng
        self.w = w = (KinWorld if g.conf == "kin" else Obs)(name, 1)
        if g.conf == "hier":
            for k, n, u in HIER[:g.nels]:
                w.new(k, n, u)
        elif g.conf == "plain":
            for i, (k, n, u) in enumerate(HIER[:g.nels]):
                w.new(k, n, str(i))
        elif g.conf == "flat":
            w.new("node", "ctx", "0")
            for i, (k, n) in enumerate((("node", "n"), ("node", "m"), ("edge", "k"), ("edge", "l"))):
                w.new(k, n, str(i + 1), 1)
            w.new("val", "w", "5", vals=[2, 1])
            w.add(1, 6)
        elif g.conf == "web":
            for i, n in enumerate("abc"):
                w.new("node", n, str(i + 1))
            for i, n in enumerate("jkl"):
                w.new("edge", n, str(i + 4), 0)
            w.new("val", "w", "7", vals=[2, 1])
            w.new("val", "z", "8", vals=[1, -1])
            for i in (1, 2, 3):
                w.add(i, i + 3)
        elif g.conf in ("conn", "hand"):
            for k, n, u in CONN:
                w.new(k, n, u)
            w.new("val", "w", "e", vals=[2])
        elif g.conf == "under":
            w.new("edge", "k", "a")
            w.new("node", "n", "c")
            w.new("node", "m", "d")
        elif g.conf == "attr":
            w.new("val", "w", "a", vals=[1, 2])
            w.new("sem", "x", "b")
        elif g.conf == "kin":
            self.kin()
        else:
            self.f, self.sf = w.factory("f"), w.semfactory("f")
        self.tick = g.conf in ("hier", "plain", "flat", "web", "conn", "hand", "kin", "under")
        self.kept = {}

    def kin(self):
        w, r = self.w, self.rng
        w.unit = 100.0
        f, s = w.factory("f"), w.semfactory("f")
        sem = lambda c, n, p, **at: w.fsem(s, c, n, p, dict(name=n, **at) if not at else at)
        w.fnode(f, "world")
        w.fnode(f, "ent")
        sem("cognitiveentity", "ent", 2)
        for n, p in (("g", 2), ("a", 4), ("b", 4), ("h", 4), ("c", 10), ("d", 10)):
            sem("kinematicgraph" if n in "gh" else "kinematiclink", n, w.fnode(f, n, p))
        for n, p in (("j", 4), ("k", 4), ("l", 10)):
            w.fedge(f, n, p, "create")
        w.fnode(f, "store")
        for i in range(1, 11):
            axis = dict(axis=[r.choice((0.0, 1.0, -0.5)) for _ in range(3)]) if r.random() < 0.6 else {}
            sem("kinematicjoint", "t%d" % i, 19, joint_type=["fix", "rev", "tr"][i % 3], **axis)
        self.m = Model()
        self.m.w, self.m.r, self.m.ents, self.m.icons = w, r, [2], []

    def joined(self, e, x):
        return [i for i, z in enumerate(self.w.last, 1) if z["k"] == "rel" and z["p"] == e and z["e"] == x][0]

    def uid(self, u):
        return u.encode()

    def do(self, call):
        """make a call; returns its outcome"""
        w = self.w
        if self.tick:
            w.tick(1)
        op, *a = call.split(".")
        n = len(w.ev)
        I = lambda j: int(a[j])
        if op == "add":
            w.add(I(0), I(1), reg=self.rng.random() < 0.3 and hasattr(w[I(1)], "register"))
        elif op == "dereg":
            w.dereg(I(0))
        elif op == "rm":
            w.rm(I(0), a[1], self.uid(a[2]) if a[2] else None, I(3))
        elif op == "rmi":
            w.rm(I(0), "", w[I(1)].uuid)
        elif op == "addm":
            w.addm(I(0), [I(1), I(2)])
        elif op == "rmm":
            w.rmm(I(0), [(a[1], None), ("", self.uid(a[2]))])
        elif op == "conn":
            w.conn(I(0), I(1), I(2), I(3), I(4) if len(a) > 4 else 0)
        elif op == "kdisc":
            w.disc(I(1), self.joined(I(0), I(1)))
        elif op == "krm":
            w.rm(I(0), "", w[self.joined(I(0), I(1))].uuid)
        elif op == "disc":
            w.disc(I(0), I(1))
        elif op == "newrel":
            w.newrel("h", "hand%d" % len(w.ev), I(0), 0, 1, 0)
        elif op == "port":
            w.port(I(0), I(1))
        elif op == "fnode":
            w.fnode(self.f, a[0], I(1))
        elif op == "fnodes":
            w.fnodes(self.f, [a[0], a[1]], I(2))
        elif op == "fedge":
            w.fedge(self.f, "n", I(0), "create")
        elif op == "fval":
            w.fval(self.f, "n", I(0), [3])
        elif op == "fsem":
            w.fsem(self.sf, a[0], "n", I(1), {"a": [1.0]} if a[2] != "0" else {})
        elif op == "tick":
            w.tick(1)
            return "ok"
        elif op == "vset":
            w.vset(1, I(0), I(1), item=self.rng.random() < 0.5)
        elif op == "vslice":
            w.vslice(1, I(0), I(1), [int(x) for x in a[2].strip("<>").replace(" ", "").split(",") if x], item=self.rng.random() < 0.5)
        elif op == "vall":
            given = w.vall(1, [int(x) for x in a[0].strip("<>").replace(" ", "").split(",") if x])
            w.noop("given", lambda: given.append(9.0))
        elif op == "aset":
            w.aset(2, a[0], a[1])
        elif op == "adel":
            w.adel(2, a[0])
        else:
            raise AssertionError(call)
        return w.ev[n]["out"]

    def look(self):
        """read what can be read here"""
        w, r = self.w, self.rng
        if not w.objs:
            return
        i = r.randrange(len(w.objs)) + 1
        k = w.project(w[i])["k"]
        if self.g.conf == "attr":
            w.vread(1)
        elif k in ("node", "edge"):
            x = r.random()
            if x < 0.4:
                w.find(i, [r.choice("nm") for _ in range(r.choice((1, 1, 2, 3)))])
            elif x < 0.6:
                w.kids(i, [j for j in range(1, len(w.objs) + 1) if r.random() < 0.7])
            else:
                w.views(i)
        elif k == "rel":
            w.views(i)


class Tour:
    """job driver: part i of n of the transitions of the small system"""

    def __init__(self, conf, quick, thorough, reads=None, share=(1.0, 1.0)):
        """reads: what to do in every state instead of making every call; share: which part of it"""
        self.conf, self.size = conf, dict(quick=quick, thorough=thorough)
        self.reads, self.share = reads, dict(quick=share[0], thorough=share[1])

    def graph(self):
        return graph(self.conf, *self.size[os.environ.get("VERIF_TIER", "quick")])

    def __call__(self, name, seed, parts):
        g = self.graph()
        part = int(name.rsplit("-", 1)[1])
        rng = random.Random("%s/%s" % (name, seed))
        share = self.share[os.environ.get("VERIF_TIER", "quick")]
        mine = lambda *k: int(hashlib.md5(repr((k, seed)).encode()).hexdigest()[:8], 16) % parts == part
        todo = {}
        for a in range(g.n):
            if self.conf == "kin":
                # whole systems only; neighbouring ones in one part
                if g.near[a] * parts // g.n == part and not any(c.startswith("krm") for c, _, _ in g.out[a]) and rng.random() < share:
                    todo[a] = ["look"]
                continue
            if self.reads:
                if mine(a):
                    todo[a] = ["look"]
                continue
            for c in sorted({c for c, _, _ in g.out[a]}):
                if mine(a, c) and rng.random() < share:
                    todo.setdefault(a, []).append(c)
        succ = [{} for _ in range(g.n)]
        for a in range(g.n):
            for c, o, b in g.out[a]:
                succ[a][c, o] = b
        made, lost, dead, tries = [], 0, 0, 0
        seen, off = {}, {}
        while todo:
            tries += 1
            w = Walk(g, "%s-%d" % (name, len(made)), rng)
            at, idle = g.start, 0
            while todo and not w.w.broken and len(w.w.ev) < (400 if self.conf == "kin" else 4000 if self.reads else 1500) and idle < 60:
                if at in todo:
                    cs = todo[at]
                    loops = [] if self.reads else [c for c in cs if all(b == at for (x, o), b in succ[at].items() if x == c)]
                    path = [(loops or cs)[0] if rng.random() < 0.5 else rng.choice(loops or cs)]
                else:
                    path = self.way(g, at, todo, rng, seen)
                    if path is None:
                        break
                for c in path:
                    if c == "look":
                        del todo[at]
                        idle = 0
                        self.reads(w, rng, share)
                        continue
                    idle += 1
                    if c in todo.get(at, ()):
                        idle = 0
                        todo[at].remove(c)
                        if not todo[at]:
                            del todo[at]
                    o = w.do(c)
                    want = seen.get((at, c), "ok")
                    seen[at, c] = o
                    if not self.reads and rng.random() < 0.25:
                        w.look()
                    to = succ[at].get((c, o))
                    if to is None or w.w.broken:
                        off[c.split(".")[0], o] = off.get((c.split(".")[0], o), 0) + 1
                        at = -1
                        break
                    at = to
                    if o != want:
                        break
                if at == -1:
                    lost += 1
                    break
            if not w.w.ev or (at == g.start and len(w.w.ev) < 8 and todo):
                dead += 1
                if dead > 20:
                    break
            if w.w.ev:
                made.append(w.w.trace())
            if lost > 200 or tries > 20000:
                break
        left = sum(len(v) for v in todo.values())
        if made:
            made[0]["tour"] = dict(conf=self.conf, states=g.n, transitions=g.transitions, offgraph=lost, off=["%s/%s" % k for k in sorted(off)], notreached=left)
        return made

    def way(self, g, at, todo, rng, seen):
        """calls of a shortest way to a state with something to do"""
        prev, q = {at: None}, deque([at])
        while q:
            x = q.popleft()
            if x in todo and x != at:
                path = []
                while prev[x] is not None:
                    y, c = prev[x]
                    path.append(c)
                    x = y
                return path[::-1]
            es = g.out[x]
            k = rng.randrange(len(es)) if es else 0
            for c, o, b in es[k:] + es[:k]:
                if b not in prev and seen.get((x, c), "ok") == o:
                    prev[b] = (x, c)
                    q.append(b)
        return None


# ------------------------- everything that can be read in a state ----------
def some(rng, share, *axes):
    """all combinations, or a share of them"""
    import itertools
    for x in itertools.product(*axes):
        if rng.random() < share:
            yield x


def r_trav(k, rng, share):
    w, n = k.w, len(k.w.objs)
    every = set(range(1, n + 1))
    for st, mode, lim, ign, miss in some(rng, share, every, "bd", (-1, 0, 1, 2, 3), (False, True), range(0, n + 1)):
        t = k.kept.setdefault((mode, lim, ign), Traversal(w, mode, lim, ign))
        t.nul = rng.choice((0, 0, 1, 2))
        w.trav(t, st, every - {miss}, rng.choice((1, 2, 3)) if rng.random() < 0.05 else 0)


def r_srch(k, rng, share):
    w, n = k.w, len(k.w.objs)
    qs = [k.kept.setdefault((bi, j), w.searcher(bi)) for bi in (False, True) for j in (0, 1)]
    names = sorted({x.qualified_name for x in w.objs}) + ["n/m/z"]
    for st, name, q in some(rng, share, range(1, n + 1), names, qs):
        w.search(q, st, name)


def r_qeng(k, rng, share):
    w, n = k.w, len(k.w.objs)
    every = set(range(1, n + 1))
    for st, miss, hit in some(rng, share, every, range(0, n + 1), range(0, n + 1)):
        e = k.kept.setdefault("e", w.engine())
        if len(e._log) > 6 or rng.random() < 0.2:
            if rng.random() < 0.5:
                w.eclear(e)
                e._log = [x for x in e._log if x["w"] == "clear"][-1:]
            else:
                e = k.kept["e"] = w.engine()
        w.eadd(e, rng.choice("pqr"), w.query(st, every - {hit}, every - {miss}))
        w.erun(e, rng.random() < 0.5)


def r_index(k, rng, share):
    w = k.w
    for st, lim, ign in some(rng, share, [i + 1 for i, x in enumerate(w.objs) if w.last[i]["k"] == "node"], (1, 2, 3, 4),
                             (False, True)):
        h = k.kept.setdefault((lim, ign), IndexHomomorphismGraphTensor(ign, lim))
        w.index(h, st, lim, ign)


def r_find(k, rng, share):
    w, n = k.w, len(k.w.objs)
    paths = [(a,) for a in "nm"] + [(a, b) for a in "nm" for b in "nm"] + [(a, b, c) for a in "nm" for b in "nm" for c in "nm"]
    for st, p in some(rng, share, range(1, n + 1), paths):
        w.find(st, p)
    for st in range(1, n + 1):
        if w.last[st - 1]["k"] == "node":
            for x in w.objs:
                w.get(st, x.uuid)


def r_kids(k, rng, share):
    w, n = k.w, len(k.w.objs)
    for st, (miss,) in some(rng, share, range(1, n + 1), [(i,) for i in range(0, n + 1)]):
        w.kids(st, [i for i in range(1, n + 1) if i != miss])
    for st in range(1, n + 1):
        w.views(st)


def r_tens(k, rng, share):
    w = k.w
    t = w.tensor(1, k.kept.setdefault("t", NumpyHypergraphTensorTransformer()) if rng.random() < 0.7 else None)
    return t


def r_lap(k, rng, share):
    t = r_tens(k, rng, share)
    if t is not None:
        k.w.laplace(t, 2)


def r_ent(k, rng, share):
    t = r_tens(k, rng, share)
    if t is not None:
        k.w.entropies(t, 2)


def r_fac(k, rng, share):
    w = k.w
    for st in (1, 4, 5):
        w.factor(st)
    for loops in (False, True):
        for sel in ([2, 3], [2, 3, 4], [3, 1, 2, 5, 4], [4, 5]):
            v = w.factorsub(sel, loops, k.kept.setdefault(("s", loops), Factorization2SubsetOperation(loops)))
            if v:
                w.factormap(v)
        rels = [i for i, x in enumerate(w.last, 1) if x["k"] == "rel"]
        for sel in (rels, rels[::-1], rels[:1], [2, 3] + rels[1:]):
            v = w.factorrel(sel, loops, k.kept.setdefault(("r", loops), RelationFactorization2SubsetOperation(loops)))
            if v:
                w.factormap(v)


def r_hyp(k, rng, share):
    w = k.w
    ends = [i for i, x in enumerate(w.last, 1) if x["k"] in ("node", "edge") or x["k"] == "rel" and x["p"]]
    for st, norm, lim in some(rng, share, ends, ("sum", "prod"), (-1, 1, 2, 3)):
        w.hyper(st, norm, lim, rng.choice((1, 2, 3)) if rng.random() < 0.05 else 0)


def r_enc(k, rng, share):
    w = k.w
    g = k.kept.setdefault("g", w.codec(1, "x", 1))
    msg = w.encode(g)
    if msg is None:
        return
    w.coomsg(1, msg, g._ctx)
    w.coo(1)
    h = w.codec(1, "y", 1)
    root, d = w.decode(h, msg, 1, g._ctx)
    if root is None:
        return
    for vals in ([3, 0], [0 - 1], []):
        w.vall(6, vals)
        m, n = w.vmsg(g)
        if m is not None:
            w.vapply(h, m, n, root, d)
    w.vall(6, [2, 1])
    w.look(root, d)


def r_sdf(k, rng, share):
    w, m = k.w, k.m
    rels = [i for i, z in enumerate(w.last, 1) if z["k"] == "rel" and z["p"]]
    ports = {z["e"] for z in w.last if z["k"] == "port" and z["p"]}
    if set(rels) <= ports and m.good(2):
        m.export(2)
