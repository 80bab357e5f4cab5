"""Observing operations of the real library: traversal, search, query engine,
indexing, tensors, factorization, encoding."""
import asyncio
import contextlib
import io
import json
import math
import queue
import warnings

import cbor2
import numpy as np

from world import BADI, Boom, World, as_int, as_val, classify, kind, run_async, truth

from rei.foundations.hierarchical_traversal_strategies import (BreadthFirstHierarchicalTraversal,
                                                               DepthFirstHierarchicalTraversal,
                                                               DepthLimitedBreadthVisitChildren,
                                                               DepthLimitedDepthVisitChildren, print_graph_hierarchy)
from rei.foundations.query.search_elements import QuerySearchElement, QuerySearchSubElement
from rei.hypergraph.base_elements import HypergraphEdge, HypergraphNode
from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
from rei.hypergraph.factorization_operations import (Factorization2Operation, Factorization2SubsetOperation,
                                                     MapFactorizationToFactorGraph,
                                                     RelationFactorization2SubsetOperation)
from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.hypergraph.norm.norm_functions import ProdNorm, SumNorm
from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer, NumpyTensorRepresentation

NOWHERE = "!nowhere!"


def ints(m, scale=1):
    return [as_int(x, scale) for x in m] if np.ndim(m) == 1 else [ints(x, scale) for x in m]


def returned(val):
    return [0 if x is None else x - 1000 if isinstance(x, int) else -1 for x in val] if isinstance(val, list) else []


class Traversal:
    """A traversal object of the library whose selection, visitor and failure can be changed between runs."""

    def __init__(self, w, mode, lim=-1, ign=False):
        self.w, self.mode, self.lim, self.ign = w, mode, lim, ign
        self.flt, self.fail, self.inside = set(), 0, None
        self.vis, self.calls, self.nul = [], 0, 0
        sel = lambda x: truth(w.id(x) in self.flt, w.id(x))
        if lim < 0:
            c = BreadthFirstHierarchicalTraversal if mode == "b" else DepthFirstHierarchicalTraversal
            self.t = c(self.visit, sel, ign) if ign else c(self.visit, sel)
        else:
            c = DepthLimitedBreadthVisitChildren if mode == "b" else DepthLimitedDepthVisitChildren
            self.t = c(self.visit, sel, lim, ign) if ign else c(self.visit, sel, lim)

    def visit(self, x):
        self.calls += 1
        if self.fail and self.calls == self.fail:
            raise Boom()
        self.vis.append(self.w.id(x))
        if self.inside and self.calls == 2:
            self.inside()
        # some visits give nothing
        return None if self.nul and self.w.id(x) % self.nul == 0 else 1000 + self.w.id(x)

    def args(self, st):
        return dict(st=st, mode=self.mode, flt=sorted(self.flt), ign=self.ign, lim=self.lim, fail=self.fail, nul=self.nul)

    def start(self, st, flt, fail=0, inside=None):
        self.flt, self.fail, self.inside = set(flt), fail, inside
        self.vis, self.calls = [], 0
        return self.t.execute(self.w[st])


class Obs(World):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.idle = HypergraphNode("idle", b"idle", "idle", self.clocks[0], None)
        self.codecs = {}
        self.mem = 0
        self.pcalls = self.pfail = 0
        self.msgs = {}
        self.kept = []
        self.rep = None

    # ---- results the caller keeps ---------------------------------------
    def hold(self, what, obj, conv):
        if isinstance(obj, (list, tuple, dict)) or hasattr(obj, "W"):
            try:
                self.kept.append((what, obj, conv, conv(obj)))
            except Exception:                         # noqa: BLE001
                return
            del self.kept[:-12]

    def held(self):
        """what earlier calls returned still says what it said"""
        for what, obj, conv, was in self.kept:
            try:
                now = conv(obj)
            except Exception as ex:                   # noqa: BLE001
                now = "unreadable " + type(ex).__name__
            if now != was:
                self.emit("same", dict(what="kept result of " + what, x=json.dumps(was), y=json.dumps(now)), "ok", [])
                return
        self.emit("same", dict(what="%d kept results" % len(self.kept), x="", y=""), "ok", [])

    # ---- traversal -----------------------------------------------------
    def trav(self, t, st, flt, fail=0, inside=None):
        out, val = self.attempt(lambda: run_async(t.start(st, flt, fail, inside)))
        ret = returned(val) if out == "ok" else []
        self.emit("trav", t.args(st), out, [list(t.vis), ret])
        self.hold("trav", val, lambda v: list(v))
        return out, [list(t.vis), ret]

    def show(self, st):
        """what is printed of a hierarchy"""
        def f():
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                run_async(print_graph_hierarchy(self[st]))
            # weights are printed as objects
            return [x.split("::")[0] if x.startswith("relation ") else x for x in out.getvalue().split("\n")[:-1]]
        self.call("print", dict(st=st), f, conv=lambda v: v)

    # ---- search --------------------------------------------------------
    def flush(self):
        """See known_findings.json: a search that stops at a match leaves work
        behind for the next one; a search that finds nothing uses it up."""
        for c in (QuerySearchSubElement, QuerySearchElement):
            def f(c=c):
                q = c()
                q.query_def = NOWHERE
                run_async(q.execute(self.idle))
            self.attempt(f)

    def searcher(self, bi):
        q = (QuerySearchElement if bi else QuerySearchSubElement)()
        q._bi = bi
        return q

    def search(self, q, st, name, flush=True):
        if flush:
            self.flush()

        def f():
            q.query_def = name
            run_async(q.execute(self[st]))
            self.hold("srch", q.query_result, self.ids)
            return list(q.query_result)
        self.call("srch", dict(st=st, name=name, bi=q._bi), f, conv=self.ids)

    # ---- query engine --------------------------------------------------
    def query(self, ctx, pred, trav):
        def p(x):
            self.pcalls += 1
            if self.pfail and self.pcalls == self.pfail:
                raise Boom()
            return truth(self.id(x) in pred, self.id(x) + ctx)
        q = HierarchicalPrepositionQuery(self[ctx], p, lambda x: truth(self.id(x) in trav, self.id(x)))
        q._d = dict(ctx=ctx, pred=pred, trav=trav)
        return q

    def engine(self):
        e = HypergraphQueryEngine("engine", b"en", "engine", self.clocks[0])
        e._log = []
        return e

    def eadd(self, e, name, q):
        e.add_query(name, q)
        e._log.append(dict(w="add", n=name, q=q))

    def eclear(self, e):
        e.clear()
        e._log.append(dict(w="clear", n="", q=None))

    def elog(self, e):
        blank = dict(w="clear", n="", ctx=0, pred=[], trav=[])
        log = [dict(w="add", n=x["n"], ctx=x["q"]._d["ctx"], pred=sorted(x["q"]._d["pred"]),
                    trav=sorted(x["q"]._d["trav"])) if x["w"] == "add" else blank for x in e._log]
        return log

    async def parts_of_engine(self, e):
        """all questions first, then all answers"""
        for c in e.prefilter_queries():
            for t in await c:
                await t
        return [x for c in await e.task_result_queries_lists() for x in await c]

    def erun(self, e, sync, fail=0):
        qs = [x["q"] for x in e._log if x["w"] == "add"]
        split = not sync and len({id(q) for q in qs}) == len(qs) and len(self.ev) % 3 == 0

        def f():
            self.pcalls, self.pfail = 0, fail
            try:
                v = e.execute_all_queries() if sync else run_async(self.parts_of_engine(e) if split else e.execute())
                self.hold("qeng", v, self.ids)
                return v
            finally:
                self.pfail = 0
        return self.call("qeng", dict(log=self.elog(e), sync=sync, fail=fail), f, conv=self.ids)

    # ---- indexing ------------------------------------------------------
    def index(self, h, st, depth, ign):
        """h: an IndexHomomorphismGraphTensor made with this depth and root choice"""
        def f():
            run_async(h.execute(self[st]))
            return self.ranks(h, st)
        return self.call("index", dict(st=st, lim=depth, ign=ign), f, conv=lambda v: v)

    def ranks(self, h, st):
        sub, todo = [], [self[st]]
        while todo:
            x = todo.pop(0)
            sub.append(x)
            todo.extend(self.children(x))
        out = []
        for k, back, fwd, cnt in (("node", h.dim, h.node, h.cnt_node), ("edge", h.depth, h.edge, h.cnt_edges),
                                  ("val", h.ival, h.val, None)):
            els = {x.uuid: x for x in sub if kind(x) == k}
            seq = []
            while True:
                try:
                    u = back(len(seq))
                except KeyError:
                    break
                x = els.get(u)
                seq.append(self.id(x) if x is not None and fwd(u) == len(seq) else -1)
            known = 0
            for u in els:
                try:
                    fwd(u)
                    known += 1
                except KeyError:
                    pass
            if known != len(seq) or (cnt is not None and cnt != len(seq)):
                seq.append(-2)
            out.append(seq)
        return out

    # ---- tensors -------------------------------------------------------
    def tensor(self, st, tr=None):
        tr = tr or NumpyHypergraphTensorTransformer()
        keep = {}

        def f():
            run_async(tr.execute(self[st]))
            t = tr.tensor_representation
            keep["t"] = t
            k = self.parts
            self.hold("tens", t, lambda t: [ints(t.W, k), ints(t.Io, k), ints(t.Ii, k)])
            self.hold("tens", (t.W, t.Io, t.Ii), lambda t: [ints(x, k) for x in t])
            return [ints(t.W, k), ints(t.Io, k), ints(t.Ii, k)]
        self.call("tens", dict(st=st, one=self.parts), f, conv=lambda v: v)
        return keep.get("t")

    def retensor(self, st):
        """one representation, brought to the dimensions of this context and filled again"""
        def f():
            async def go():
                h = IndexHomomorphismGraphTensor(True)
                tasks = await h.execute(self[st])
                dims = (h.cnt_node, h.cnt_edges)
                if self.rep is None or self.rep[1] == dims:      # its numbers would stay
                    self.rep = [NumpyTensorRepresentation(), None]
                t = self.rep[0]
                self.rep[1] = dims
                t.synchronize_structure_dimensions(h)
                q = queue.Queue()
                await HypergraphTraversal(q.put, lambda x: True, SumNorm(), h, 1).execute(self[st])
                await t.fill_weights(q, tasks)
                return t
            t = run_async(go())
            return [ints(t.W, self.parts), ints(t.Io, self.parts), ints(t.Ii, self.parts)]
        self.call("tens", dict(st=st, one=self.parts), f, conv=lambda v: v)

    def laplace(self, t, n):
        """degrees and Laplacians of a tensor representation, doubled"""
        k = self.parts
        W, Io, Ii = ints(t.W, k), ints(t.Io, k), ints(t.Ii, k)
        k *= 2
        self.call("lap", dict(W=W, Io=Io, Ii=Ii, n=n),
                  lambda: [ints(t.deg, k), ints(t.L, k), ints(t.Lp, k), [as_int(t.total_deg, k)], ints(t.DD, k),
                           ints(t.D, k)], conv=lambda v: v)

    def entropies(self, t, n):
        """in thousandths, of a tensor representation with at least two edges and some link"""
        W, Io, Ii = ints(t.W), ints(t.Io), ints(t.Ii)
        if not 2 <= len(W) <= 5 or not 1 <= n <= 5 or not all(0 <= x <= 4 for M in W for r in M for x in r) or \
                not all(0 <= x <= 4 for M in (Io, Ii) for r in M for x in r) or not any(x for M in (Io, Ii) for r in M for x in r):
            return
        a = dict(W=W, Io=Io, Ii=Ii, n=n, vec=[], sum=0, pvec=[], psum=0, ln=[])

        def milli(v):
            return [milli(x) for x in v] if getattr(v, "ndim", 0) else as_int(round(float(v) * 1000)) if v == v else BADI

        def f():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a.update(ln=milli(t.Lnorm), vec=milli(t.entropy_vector()), sum=milli(t.entropy()), psum=milli(t.entropy_projected()),
                         pvec=sorted(milli(t.entropy_projected_vector())))
        out, _ = self.attempt(f)
        self.emit("ent", a, out, [])

    def rawtensor(self, W, Io, Ii):
        """a representation of these dimensions, with numbers of our own"""
        t, h = NumpyTensorRepresentation(), IndexHomomorphismGraphTensor(True)
        h.reset_from_bijection([(b"n%d" % i, i) for i in range(len(Io[0]))], [(b"e%d" % i, i) for i in range(len(Io))], [])
        t.synchronize_structure_dimensions(h)
        for have, x in zip((t.W, t.Io, t.Ii), (W, Io, Ii)):
            have[...] = np.array(x, dtype=float) / self.parts
        return t

    # ---- pairs of connected elements -----------------------------------
    def hyper(self, st, norm, depth, fail=0, inside=None, tr=None):
        """The relation-following traversal with a visitor of its own."""
        out, val = self.attempt(lambda: run_async(self.hstart(st, norm, depth, fail, inside, tr)))
        self.emit("hyp", dict(st=st, norm=norm, lim=depth, fail=fail, one=self.parts), out, self.hres)

    def hstart(self, st, norm, depth, fail=0, inside=None, tr=None):
        res = self.hres = []
        calls = [0]
        scale = self.parts if norm == "sum" else self.parts ** 2

        def vis(q):
            calls[0] += 1
            if fail and calls[0] == fail:
                raise Boom()
            back = {}
            for x in self.objs:
                if isinstance(x, (HypergraphNode, HypergraphEdge)):      # other elements may have identifiers of these
                    back.setdefault(x.uuid, self.id(x))
            res.append([[back.get(z[2], -1), back.get(z[0], -1), back.get(z[1], -1), as_int(z[3], scale)] for z in q])
            if inside and calls[0] == 2:
                inside()
        t = HypergraphTraversal(vis, lambda x: truth(True, self.id(x)), SumNorm() if norm == "sum" else ProdNorm(),
                                depth=depth if depth >= 0 else math.inf)
        return t.execute(self[st])

    # ---- several runs at once ------------------------------------------
    def together(self, runs):
        """runs: list of (coroutine maker, event maker(out, value)); all in one event loop"""
        async def one(mk):
            try:
                return "ok", await mk()
            except Exception as ex:                   # noqa: BLE001
                return classify(ex), None

        async def go():
            return await asyncio.gather(*[one(mk) for mk, _ in runs])
        out, vals = self.attempt(lambda: run_async(go()))
        for k, (_, ev) in enumerate(runs):
            ev(*(vals[k] if out == "ok" else (out, None)))

    # ---- factorization -------------------------------------------------
    def factor(self, st, op=None):
        op = op or Factorization2Operation()
        def f():
            v = run_async(op.execute(self[st]))
            self.hold("fac", v, lambda v: [[self.id(i)] + self.ids(o) for i, o in v])
            return list(v)
        return self.call("fac", dict(st=st), f,
                         conv=lambda v: sorted([self.id(i)] + sorted(self.ids(o)) for i, o in v))

    def factorsub(self, sel, loops, op=None):
        op = op or Factorization2SubsetOperation(loops)
        keep = {}

        def f():
            v = run_async(op.execute([self[i] for i in sel]))
            self.hold("facsub", v, lambda v: [self.ids(p) for p in v])
            keep["v"] = list(v)
            return keep["v"]
        self.call("facsub", dict(sel=list(sel), loops=loops), f, conv=lambda v: sorted(self.ids(p) for p in v))
        return keep.get("v")

    def factorrel(self, sel, loops, op=None):
        op = op or RelationFactorization2SubsetOperation(loops)
        keep = {}

        def f():
            v = run_async(op.execute([self[i] for i in sel]))
            self.hold("facsub", v, lambda v: [self.ids(p) for p in v])
            keep["v"] = list(v)
            return keep["v"]
        self.call("facrel", dict(sel=list(sel), loops=loops), f, conv=lambda v: sorted(self.ids(p) for p in v))
        return keep.get("v")

    def factormap(self, pairs):
        nothing = [None, 0, "", [], False]

        def f(p):
            x = self.id(p[0]) * 1000 + self.id(p[1])
            return nothing[x % 7] if x % 7 < 5 and x % 2 else x
        m = MapFactorizationToFactorGraph(f)
        xs = [self.id(a) * 1000 + self.id(b) for a, b in pairs]
        xs = [-(x % 7) if x % 7 < 5 and x % 2 else x for x in xs]

        def back(v):
            return [x if type(x) is int and x else -[k for k, y in enumerate(nothing) if type(y) is type(x)][0] for x in v]
        self.call("facmap", dict(xs=xs), lambda: list(run_async(m.execute(pairs))), conv=back)

    # ---- encoding ------------------------------------------------------
    def picture(self, root):
        """The decoded copy as the specification's Picture; inconsistencies are marked."""
        els = [root] + [x for x in self.children(root) if kind(x) == "node"]
        ns = list(els)
        es = [x for x in self.children(root) if kind(x) == "edge"]
        vs = [x for x in self.children(root) if kind(x) == "val"]
        tag = lambda x: [self.tok(x.uuid), x.id_name]

        def placed(x, p):
            ok = x.parent is p and x.depth == (p.depth + 1 if p is not None else 0) and \
                x.qualified_name == (x.id_name if p is None else p.qualified_name + "/" + x.id_name)
            return tag(x) if ok else tag(x) + ["misplaced"]
        rels = [[r for r in self.children(e) if kind(r) == "rel"] for e in es]
        known = {id(x) for x in ns + es}
        pic = dict(nodes=[placed(x, root if x is not root else None) for x in ns],
                   edges=[placed(x, root) for x in es],
                   vals=[placed(x, root) for x in vs],
                   hold=[[as_val(y, self.parts) for y in x.get_values()] for x in vs],
                   rels=[[[self.tok(r.uuid), r.id_name, self.tok(r.endpoint.uuid) if id(r.endpoint) in known else "?",
                           str([0, 1, 2][self._dir(r)]) if r.parent is e and r in list(e.sub_relations) else "?"]
                          for r in rs] for e, rs in zip(es, rels)],
                   ports=[sorted(p.endpoint.id_name + "#" + self.tok(p.endpoint.uuid)
                                 if any(p.endpoint is r and r.endpoint is x for rs in rels for r in rs) else "?"
                                 for p in self.children(x) if kind(p) == "port") for x in ns + es])
        came = [x.progenitor_qualified_name for x in ns + es + vs + [r for rs in rels for r in rs]]
        pic["from"] = [x if isinstance(x, str) else "?" + type(x).__name__ for x in came]
        extra = [x for x in self.children(root) if kind(x) not in ("node", "edge", "val", "port")]
        extra += [y for x in ns[1:] for y in self.children(x) if kind(y) != "port"]
        if extra:
            pic["nodes"].append(["extra", "extra"])
        return pic

    @staticmethod
    def _dir(r):
        from world import DIRS
        return DIRS.index(r.direction)

    EMPTYPIC = {"nodes": [], "edges": [], "vals": [], "hold": [], "rels": [], "ports": [], "from": []}
    EMPTYIDX = dict(nodes=[], edges=[], vals=[])

    def codec(self, c, name="codec", ck=1):
        g = GraphTensorCbor(name, self.clk(ck), self[c])
        g._c = c
        g._ck = ck
        g._ctx, g._order = 0, None
        return g

    def context(self, g):
        """the codec indexes its context"""
        out, _ = self.attempt(lambda: run_async(g.update_context(self[g._c])))
        self.emit("ctx", dict(c=g._c), out, [])
        self.mem += 1
        g._ctx = self.mem
        g._order = [x.uuid for x in self.children(self[g._c])]
        return out == "ok"

    def encode(self, g, between=None):
        """-> message (or None)"""
        if not self.context(g):
            return None
        if between:
            between()

        def f():
            run_async(g.update_coo())
            return g.full_msg()
        out, msg = self.attempt(f)
        tok = self.tok(b"msg" + msg) if out == "ok" else ""
        self.emit("enc", dict(c=g._c, x=g._ctx, tok=tok, one=self.parts), out, [])
        self.mem += 1
        return msg

    def decode(self, g, msg, c, x):
        """-> (copy, number of the copy in mem)"""
        out, val = self.attempt(lambda: g.create_graph(msg))
        pic, idx = dict(self.EMPTYPIC), dict(self.EMPTYIDX)
        root = None
        if out == "ok":
            root, hom = val
            try:
                pic = self.picture(root)
                idx = dict(nodes=self._rank(hom.dim, hom.node), edges=self._rank(hom.depth, hom.edge),
                           vals=self._rank(hom.ival, hom.val))
                if hom.cnt_node != len(idx["nodes"]) or hom.cnt_edges != len(idx["edges"]):
                    idx["nodes"].append(["count", "?"])
            except Exception as ex:                   # noqa: BLE001
                self.notes.append("picture: %r" % ex)
                out, pic, idx = "exc", dict(self.EMPTYPIC), dict(self.EMPTYIDX)
        self.emit("dec", dict(c=c, x=x, pic=pic, idx=idx), out, [])
        self.mem += 1
        return root, self.mem

    def _rank(self, back, fwd):
        seq = []
        while True:
            try:
                u = back(len(seq))
            except KeyError:
                return seq
            seq.append([self.tok(u), str(len(seq)) if fwd(u) == len(seq) else "?"])

    def vmsg(self, g):
        out, msg = self.attempt(g.msg_value_update)
        self.emit("msg", dict(c=g._c, x=g._ctx), out, [])
        self.mem += 1
        return msg, self.mem

    def _pic(self, root):
        try:
            return "ok", self.picture(root)
        except Exception as ex:                       # noqa: BLE001
            self.notes.append("picture: %r" % ex)
            return "exc", dict(self.EMPTYPIC)

    def vapply(self, g, msg, m, root, d):
        out, _ = self.attempt(lambda: g.from_msg_update_values(msg))
        o2, pic = self._pic(root)
        self.emit("apply", dict(m=m, d=d, pic=pic), out if o2 == "ok" else o2, [])

    def look(self, root, d):
        o2, pic = self._pic(root)
        self.emit("look", dict(d=d, pic=pic), o2, [])

    def coo(self, c, depth=()):
        """tensor entries: the last entry written for a place counts"""
        def f():
            t = CoordinateObjectTransformer(self[c], *depth)
            run_async(t.reset(self[c]))
            run_async(t.execute())
            v = t.msg_tensor_value_updates()
            self.hold("coo", v, lambda v: [[list(map(float, z)) for z in m] for m in v])
            return v
        self._coo(c, 0, f)

    def coomsg(self, c, msg, x):
        self._coo(c, x, lambda: cbor2.loads(msg)[4:7])

    def _coo(self, c, x, f):
        out, v = self.attempt(f)
        W = Io = Ii = []
        if out == "ok":
            W, Io, Ii = ([list(k) + [as_int(x, self.parts)] for k, x in sorted({tuple(z[:-1]): z[-1] for z in m}.items())]
                         for m in v)
        self.emit("coo", dict(c=c, x=x, W=W, Io=Io, Ii=Ii, one=self.parts), out, [])

    # ---- identities ----------------------------------------------------
    def ident(self, f, full, tok, t):
        self.emit("ident", dict(f=f, n=full, t=t, tok=tok), "ok", [])

    def same(self, x, y):
        self.emit("same", dict(x=x, y=y), "ok", [])

    def scale(self, shape, what, n, f):
        out, v = self.attempt(f)
        self.emit("scale", dict(shape=shape, what=what, n=n), out, v if out == "ok" else [])
