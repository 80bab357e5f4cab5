"""Histories that need more than one run: isolation, twins, sizes, identities, leftovers."""
import hashlib
import json
import os
import random
import subprocess
import unicodedata
import sys
import traceback

from drive import Driver
from observe import Obs, Traversal
from world import Boom, kind, run_async

READS = ("trav", "srch", "qeng", "index", "tens", "fac", "facsub", "facrel", "hyp", "coo", "enc")


def forked(f):
    """f() in a child process with nothing shared; its JSON-able result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = dict(ok=f())
        except BaseException:                          # noqa: BLE001
            out = dict(err=traceback.format_exc()[-1500:])
        with os.fdopen(w, "wb") as h:
            h.write(json.dumps(out).encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    out = json.loads(data)
    if "err" in out:
        raise RuntimeError(out["err"])
    return out["ok"]


def outcome(w, e):
    """what a reading call gave, in a form two processes can compare"""
    x = [e["out"], e["res"]]
    if e["op"] == "coo":
        x += [e["a"]["W"], e["a"]["Io"], e["a"]["Ii"]]
    if e["op"] == "enc":
        back = {v: k for k, v in w.uids.items()}
        x += [hashlib.sha1(back.get(e["a"]["tok"], b"-")).hexdigest()]
    return json.dumps(x, sort_keys=True)


def read_again(w, e):
    """the reading call of event e, made with new objects"""
    a = e["a"]
    op = e["op"]
    if op == "trav":
        t = Traversal(w, a["mode"], a["lim"], a["ign"])
        t.nul = a["nul"]
        w.trav(t, a["st"], a["flt"], a["fail"])
    elif op == "srch":
        w.search(w.searcher(a["bi"]), a["st"], a["name"])
    elif op == "qeng":
        g = w.engine()
        for x in a["log"]:
            if x["w"] == "add":
                w.eadd(g, x["n"], w.query(x["ctx"], set(x["pred"]), set(x["trav"])))
            else:
                w.eclear(g)
        w.erun(g, a["sync"], a["fail"])
    elif op == "index":
        from observe import IndexHomomorphismGraphTensor
        w.index(IndexHomomorphismGraphTensor(a["ign"], a["lim"]), a["st"], a["lim"], a["ign"])
    elif op == "tens":
        w.tensor(a["st"])
    elif op == "fac":
        w.factor(a["st"])
    elif op == "facsub":
        w.factorsub(a["sel"], a["loops"])
    elif op == "facrel":
        w.factorrel(a["sel"], a["loops"])
    elif op == "hyp":
        w.hyper(a["st"], a["norm"], a["lim"], a["fail"])
    elif op == "coo":
        w.coo(a["c"])
    elif op == "enc":
        w.encode(w.codec(a["c"], "fresh", 1))
    return outcome(w, w.ev[-1])


class Isolated:
    """A history with many reads in one process; some of the reads are then made once more, each in a process
    where nothing but the structural calls before it ever ran."""

    def __init__(self, driver, prof, take=6, boom=0.3, **opt):
        self.driver, self.prof, self.take, self.boom, self.opt = driver, prof, take, boom, opt

    def __call__(self, name, seed, length):
        return forked(lambda: self.whole(name, seed, length))

    def whole(self, name, seed, length):
        # children of this process, made before anything ran in it, would share the driver's picks only; they are made
        # from here on, but replay in a process that is forked before the history runs
        r = random.Random("iso/%s/%s" % (name, seed))
        pr, pw = os.pipe()
        qr, qw = os.pipe()
        pid = os.fork()
        if pid == 0:                                   # the one that stays untouched
            os.close(pw)
            os.close(qr)
            try:
                self.server(pr, qw)
            finally:
                os._exit(0)
        os.close(pr)
        os.close(qw)
        d = self.driver(name, seed, self.prof, **self.opt)
        d.boom = self.boom
        t = d.run(length)
        w = d.w
        reads = [n for n, e in enumerate(w.ev) if e["op"] in READS and e["out"] != "hang"]
        late = reads[len(reads) // 4:]
        picks = sorted(r.sample(late, min(self.take, len(late))))
        import pickle
        with os.fdopen(pw, "wb") as h:
            facs = [(f._h["n"], f._h["ck"], type(f).__name__) for f in w.facs]
            sub = lambda x: ("%fac", [g is x for g in w.facs].index(True)) if any(g is x for g in w.facs) else x
            log = {n: (m, [sub(x) for x in a], k, now) for n, (m, a, k, now) in w.log.items()}
            pickle.dump((w.parts, facs, log, w.uids, w.keys, [(n, w.ev[n]) for n in picks]), h)
        with os.fdopen(qr, "rb") as h:
            alone = json.loads(h.read() or b"{}")
        os.waitpid(pid, 0)
        for n in picks:
            x, y = outcome(w, w.ev[n]), alone.get(str(n), "no answer")
            w.emit("same", dict(what="step %d (%s) alone" % (n + 1, w.ev[n]["op"]), x=x, y=y), "ok", [])
        return dict(id=t["id"], ev=w.ev)

    def server(self, pr, qw):
        import pickle
        with os.fdopen(pr, "rb") as h:
            parts, facs, log, uids, keys, reads = pickle.load(h)
        out = {}
        for n, e in reads:
            def f():
                w = Obs("alone")
                w.parts = parts
                for m, ck, c in facs:
                    (w.factory if c == "HypergraphFactory" else w.semfactory)(m, ck)
                w.uids.update(uids)
                w.keys |= keys
                for k in sorted(log):
                    if k < n:
                        m, a, kw, now = log[k]
                        for c, t in zip(w.clocks, now):
                            c.t = t
                        a = [w.facs[x[1]] if isinstance(x, tuple) and len(x) == 2 and x[0] == "%fac" else x for x in a]
                        getattr(w, m)(*a, **kw)
                for c, t in zip(w.clocks, e["now"]):
                    c.t = t
                return read_again(w, e)
            try:
                out[n] = forked(f)
            except Exception as ex:                    # noqa: BLE001
                out[n] = "failed: " + str(ex)[-300:]
        with os.fdopen(qw, "wb") as h:
            h.write(json.dumps(out).encode())


class Twin:
    """A history, and the same history without the calls that were rejected: every other call must come out the same."""

    def __init__(self, driver, prof, **opt):
        self.driver, self.prof, self.opt = driver, prof, opt

    def __call__(self, name, seed, length):
        d = self.driver(name, seed, self.prof, **self.opt)
        t = d.run(length)
        w = d.w
        if w.broken:
            return t
        rej = {n for n in w.log if w.ev[n]["out"] in ("dup", "rec", "missing", "invalid", "insuf", "type", "index")
               and not w.ev[n]["dl"]}
        v = type(w)(name)
        done = v.again(w, skip=rej)
        one = [(n, w.ev[n]["op"], w.ev[n]["out"], w.ev[n]["res"], w.ev[n]["dl"]) for n in done]
        two = [(n, e["op"], e["out"], e["res"], e["dl"]) for n, e in zip(done, v.ev)]
        for a, b in zip(one, two):
            if a != b:
                w.emit("same", dict(what="step %d" % (a[0] + 1), x=json.dumps(a)[:3000], y=json.dumps(b)[:3000]), "ok", [])
                break
        else:
            k = str(len(done)) + " calls, " + str(len(rej)) + " rejected ones left out"
            # and what lookups say in both
            w.emit("same", dict(what="all", x=self.look(w) + k, y=self.look(v) + k), "ok", [])
        return w.trace()

    @staticmethod
    def look(w):
        out = []
        for x in w.objs:
            for n in sorted({y.id_name for y in w.objs}):
                try:
                    out.append(w.ids(x.get_element_by_id_name(n)))
                except Exception as ex:                # noqa: BLE001
                    out.append(type(ex).__name__)
        return hashlib.sha1(json.dumps(out).encode()).hexdigest()


# ---- sizes ---------------------------------------------------------------
class Size:
    """One observation at one size; the graph itself is not recorded, the answer is."""

    def __init__(self, sizes, big, wide):
        self.sizes, self.big, self.wide = sizes, big, wide

    CASES = ([("chain", x) for x in ("bfs", "dfs", "depths", "qlen", "cids", "lookup", "search", "searchup", "engine", "moved",
                                     "removed", "readd")]
             + [("fan", x) for x in ("bfs", "dfs", "depths", "qlen", "cids", "lookup", "search", "searchup", "engine",
                                     "nodeindex", "removed", "bulk", "moved", "readd", "sync")]
             + [("path", x) for x in ("tensor", "coo", "factor", "hyper")]
             + [("star", x) for x in ("star", "subset", "stardisc")] + [("flat", "roundtrip"), ("flat", "update")]
             + [("wide", x) for x in ("factor", "hyper", "index", "subset", "pairs", "disc", "edges")])

    def __call__(self, name, seed, length):
        i = int(name.rsplit("-", 1)[1])
        shape, what = self.CASES[i % len(self.CASES)]
        n = self.sizes[i // len(self.CASES)]
        if what in ("tensor",):
            n = self.big[0] + i // len(self.CASES)
        if shape in ("fan", "wide"):
            n = self.wide[i // len(self.CASES)]
        if shape == "star":
            n = self.big[1]
        if what in ("roundtrip", "update"):
            n = self.big[2]
        return forked(lambda: self.one(name, shape, what, n))

    def one(self, name, shape, what, n):
        w = Obs(name)
        w.limit = 120
        box = {}
        out, _ = w.attempt(lambda: box.update(v=getattr(self, "b_" + shape)(w, what, n)))
        v = box.get("v", [])
        w.objs, w.idx = [], {}
        w.emit("scale", dict(shape=shape, what=what, n=n), out, v)
        return w.trace()

    # elements are made with the library only; numbers are positions in creation order
    @staticmethod
    def node(n, u, p=None):
        from rei.hypergraph.base_elements import HypergraphNode
        return HypergraphNode(n, u.encode(), n, Size.clock, p)

    def tree(self, w, shape, n):
        Size.clock = w.clocks[0]
        els = [self.node("c", "1")]
        for i in range(2, n + 1):
            els.append(self.node("c", str(i), els[-1] if shape == "chain" else els[0]))
        return els

    def seen(self, w, els, what, what2=None):
        pos = {id(x): i + 1 for i, x in enumerate(els)}
        got = []
        from rei.foundations.hierarchical_traversal_strategies import (BreadthFirstHierarchicalTraversal,
                                                                       DepthFirstHierarchicalTraversal)
        c = BreadthFirstHierarchicalTraversal if what == "bfs" else DepthFirstHierarchicalTraversal
        run_async(c(lambda x: got.append(pos[id(x)]), lambda x: True).execute(els[0]))
        return got

    def b_chain(self, w, what, n, shape="chain"):
        els = self.tree(w, shape, n)
        pos = {id(x): i + 1 for i, x in enumerate(els)}
        if what in ("bfs", "dfs"):
            return self.seen(w, els, what)
        if what == "depths":
            return [x.depth for x in els]
        if what == "qlen":
            return [len(x.qualified_name) for x in els]
        if what == "cids":
            return [x.cid for x in els]
        if what == "lookup":
            p = "/".join(["c"] * (n - 1)) if shape == "chain" else "c"
            return [pos[id(x)] for x in els[0].get_element_by_id_name(p)]
        if what == "search":
            q = w.searcher(False)
            q.query_def = els[-1].qualified_name
            run_async(q.execute(els[0]))
            return [pos[id(x)] for x in q.query_result]
        if what == "searchup":
            q = w.searcher(True)
            q.query_def = "c"
            run_async(q.execute(els[-1]))
            return [pos[id(x)] for x in q.query_result]
        if what == "engine":
            from observe import HierarchicalPrepositionQuery
            e = w.engine()
            e.add_query("q", HierarchicalPrepositionQuery(els[0], lambda x: True, lambda x: True))
            return [pos[id(x)] for x in run_async(e.execute())]
        if what == "sync":
            from observe import HierarchicalPrepositionQuery
            e = w.engine()
            e.add_query("q", HierarchicalPrepositionQuery(els[0], lambda x: x is not els[0], lambda x: True))
            return [pos[id(x)] for x in e.execute_all_queries()]
        if what == "nodeindex":
            from observe import IndexHomomorphismGraphTensor
            h = IndexHomomorphismGraphTensor()
            run_async(h.execute(els[0]))
            by = {x.uuid: i + 1 for i, x in enumerate(els)}
            return [by[h.dim(i)] if h.node(h.dim(i)) == i else -1 for i in range(h.cnt_node)]
        if what == "moved" and shape == "fan":
            x = self.node("x", "x")
            x.add_element(els[0])
            return [len(y.qualified_name) for y in els]
        if what == "moved":
            self.node("x", "x").add_element(els[1])
            return [x.depth for x in els[1:]]
        if what == "readd":
            list(els[0].remove_element("", els[1].uuid))
            els[0].add_element(els[1])
            return [x.depth for x in els] if shape == "chain" else [pos[id(x)] for x in els[0].get_subelements(lambda x: True)]
        if what == "removed" and shape == "chain":
            list(els[0].remove_element("", els[1].uuid))
            return [x.depth for x in els[1:]]
        if what == "removed":
            return [pos[id(x)] for x in els[0].remove_element("c")]
        if what == "bulk":
            r = self.node("r", "r")
            run_async(r.add_elements(els[1:]))
            return [pos[id(x)] for x in r.get_subelements(lambda x: True)] + [els[0].cnt_subelements, r.cnt_subelements]

    def b_fan(self, w, what, n):
        return self.b_chain(w, what, n, "fan")

    def b_path(self, w, what, n):
        Size.clock = w.clocks[0]
        f = w.factory("f")
        if what in ("factor", "hyper"):                # edge i inside node i
            els = [self.node("n%d" % i, "n%d" % i) for i in range(1, n + 1)]
            cont = els
        else:
            root = self.node("root", "root")
            els = [self.node("n%d" % i, "n%d" % i, root) for i in range(1, n + 1)]
            cont = [root] * n
        for i in range(n - 1):
            f.connect_dir_edges(cont[i], "e%d" % i, [els[i]], [els[i + 1]])
        if what == "factor":
            from observe import Factorization2Operation
            return [int(i.endpoint.id_name[1:]) if [x.endpoint for x in o] == [els[k + 1]] else -1
                    for k, (i, o) in enumerate(run_async(Factorization2Operation().execute(els[0])))]
        if what == "hyper":
            from observe import HypergraphTraversal, SumNorm
            got = []
            run_async(HypergraphTraversal(got.append, lambda x: True, SumNorm()).execute(els[0]))
            by = {x.uuid: i + 1 for i, x in enumerate(els)}
            q = [z for v in got for z in v]
            if any(by[z[1]] != by[z[0]] + 1 for z in q):
                return [-1]
            # a link is reported by its source and by its target
            return [by[z[0]] for z in q[::2]] if [z[0] for z in q[::2]] == [z[0] for z in q[1::2]] else [-2]
        if what == "coo":
            from observe import CoordinateObjectTransformer
            t = CoordinateObjectTransformer(root)
            run_async(t.reset(root))
            run_async(t.execute())
            W, Io, Ii = t.msg_tensor_value_updates()
            s = {(a, b, c): d for a, b, c, d in W}
            return [i if s.get((i - 1, i, i + 1)) == 1 and len(s) == n - 1 else -1 for i in range(1, n)]
        from observe import NumpyHypergraphTensorTransformer
        import numpy as np
        tr = NumpyHypergraphTensorTransformer()
        run_async(tr.execute(root))
        t = tr.tensor_representation
        nz = [tuple(int(y) for y in x) for x in zip(*np.nonzero(t.W))]
        no = [tuple(int(y) for y in x) for x in zip(*np.nonzero(t.Io))]
        ni = [tuple(int(y) for y in x) for x in zip(*np.nonzero(t.Ii))]
        return [i if nz[i - 1] == (i - 1, i - 1, i) and no[i - 1] == (i - 1, i - 1) and ni[i - 1] == (i - 1, i)
                and len(nz) == len(no) == len(ni) == n - 1 else -1 for i in range(1, n)]

    def b_star(self, w, what, n):
        Size.clock = w.clocks[0]
        f = w.factory("f")
        root = self.node("root", "root")
        els = [self.node("n%d" % i, "n%d" % i, root) for i in range(1, n + 1)]
        e = f.connect_nodes(root, "e", els)
        if what == "stardisc":
            for r in list(e.sub_relations)[::2]:
                r.endpoint.disconnect(r)
            return [len(list(x.sub_ports)) for x in els]
        from observe import Factorization2Operation, Factorization2SubsetOperation
        if what == "subset":
            v = list(run_async(Factorization2SubsetOperation().execute(els + [e])))
            return [len(v), len({(id(a), id(b)) for a, b in v})]
        a = list(run_async(Factorization2Operation().execute(root)))
        pairs = sum(1 for i, o in a for x in o if x.endpoint is not i.endpoint)
        return [len(list(e.sub_relations)), len(list(e.get_incoming_relations())), len(a), pairs]

    def b_wide(self, w, what, n):
        """a node with n edges, edge i from a to node i, for which node i has a value"""
        Size.clock = w.clocks[0]
        f = w.factory("f")
        root = self.node("root", "root")
        a = self.node("a", "a", root)
        els = [self.node("n%d" % i, "n%d" % i, root) for i in range(1, n + 1)]
        es = [f.connect_dir_edges(root, "e%d" % i, [a], [els[i - 1]]) for i in range(1, n + 1)]
        pos = {id(x): i for i, x in enumerate(els, 1)}
        by = {x.uuid: i for i, x in enumerate(els, 1)}
        import observe as o
        if what == "factor":
            return [pos[id(q[0].endpoint)] if i.endpoint is a and len(q) == 1 else -1
                    for i, q in run_async(o.Factorization2Operation().execute(root))]
        if what == "hyper":
            got = []
            run_async(o.HypergraphTraversal(got.append, lambda x: True, o.SumNorm(), depth=1).execute(root))
            return [by[q[0][1]] if len(q) == 1 and q[0][0] == a.uuid else -1 for q in got[::2]]
        if what == "index":
            h = o.IndexHomomorphismGraphTensor()
            run_async(h.execute(root))
            return [h.edge(e.uuid) + 1 if h.node(els[i].uuid) == i + 2 else -1 for i, e in enumerate(es)]
        if what == "subset":
            return [pos[id(y.endpoint)] for x, y in run_async(o.Factorization2SubsetOperation().execute([a] + els[:20] + es))]
        if what == "pairs":
            rels = [r for e in es for r in e.sub_relations]
            return [pos[id(y.endpoint)] for x, y in run_async(o.RelationFactorization2SubsetOperation().execute(rels))]
        if what == "disc":
            for e in es[::2]:
                a.disconnect(next(e.sub_relations))
            return [pos[id(list(p.endpoint.parent.sub_relations)[1].endpoint)] for p in a.sub_ports]
        if what == "edges":
            for e in es:
                e.deregister()
            return [len(list(root.sub_edges)), len(list(root.sub_nodes)), len(list(a.sub_ports)), root.cnt_subelements]

    def b_flat(self, w, what, n):
        Size.clock = w.clocks[0]
        f = w.factory("f")
        root = self.node("root", "root")
        els = [self.node("n%d" % i, "n%d" % i, root) for i in range(1, n + 1)]
        vals = [f.create_value(root, "v%d" % i, [float(i)] * (i % 3)) for i in range(n)]
        for i in range(n - 1):
            f.connect_dir_edges(root, "e%d" % i, [els[i]], [els[i + 1]])
        from observe import GraphTensorCbor
        g = GraphTensorCbor("g", w.clocks[0], root)
        run_async(g.update_context(root))
        run_async(g.update_coo())
        m = g.full_msg()
        copy, hom = g.create_graph(m)
        if what == "update":
            for v in vals:
                v.update_values([x + 1 for x in v.get_values()])
            g.from_msg_update_values(g.msg_value_update())
            return [int(sum(x.get_values()) if x.get_values() else 0) for x in copy.sub_values]
        ns, es, vs = list(copy.sub_nodes), list(copy.sub_edges), list(copy.sub_values)
        ok = [x.uuid for x in ns] == [x.uuid for x in els] and all(
            [(r.direction.value, r.endpoint.id_name) for r in x.sub_relations] ==
            [(r.direction.value, r.endpoint.id_name) for r in y.sub_relations] for x, y in zip(es, root.sub_edges)) \
            and all(hom.node(x.uuid) == i + 1 for i, x in enumerate(ns)) \
            and [v.get_values() for v in vs] == [v.get_values() for v in vals]
        return [len(ns), len(es), 1 if ok else 0]


# ---- identities ------------------------------------------------------------
def make_uid(f, k, name, p):
    if k == "node":
        return f.generate_node(name, p).uuid
    if k == "nodes":
        return list(f.generate_list_nodes([name], p))[0].uuid
    if k == "edge":
        return f.create_hyperedge(p, name).uuid
    if k == "value":
        return f.create_value(p, name, [1.0]).uuid
    if k == "sem":
        return f.generate_semantic_element("kinematiclink", name, p, {"name": name}).uuid
    return f.unique_identifier.generate_uid(name)


def requests(r, n):
    """(factory class, factory name, path, kind, time): requests for identities"""
    fn = ["f", "g", "ff", "f.", "F", "f 1", ""]
    nm = ["a", "b", "ab", "é", "a.b", "a.1", "x y", "", "1", "a1", "a.", "n" * 300, "Ünï", "a/b"[:1]]
    near = [str.upper, str.lower, str.title, lambda x: x + " ", lambda x: " " + x, lambda x: x + "\t", lambda x: x + "_",
            lambda x: x[:-1], lambda x: x[::-1], lambda x: x + x, lambda x: x + "1", lambda x: "0" + x, lambda x: x + "\u0301",
            lambda x: unicodedata.normalize("NFD", x), lambda x: x.replace("a", "b", 1), lambda x: x[:250] + "m",
            lambda x: x.replace(".", "_"), lambda x: x.replace(" ", "")]
    now = 1_700_000_000_000_000_000 + r.randrange(10 ** 9)
    out = []
    for _ in range(n):
        k = r.choice(["node", "node", "nodes", "edge", "value", "sem", "uid"])
        parts = [r.choice(nm) for _ in range(r.choice([1, 1, 2, 2, 3, 3, 4, 5, 7]))]
        if k in ("edge", "value", "sem") and len(parts) == 1:
            parts = ["p"] + parts
        if r.random() < 0.4 and out:
            c, f, parts, k2, t = r.choice(out)
            if k2 == k or r.random() < 0.5:
                k = k2
            if k in ("edge", "value", "sem") and len(parts) == 1:
                k = "node"
            h = r.random()
            parts = list(parts)
            if r.random() < 0.5:                       # a name that is nearly the same
                j = r.choice([0, r.randrange(len(parts)), len(parts) - 1])
                parts[j] = r.choice(near)(parts[j])
            elif r.random() < 0.2:                     # one container more
                parts.insert(r.randrange(len(parts)), r.choice(nm))
            elif r.random() < 0.1:
                r.shuffle(parts)
            if r.random() < 0.15:
                f = r.choice(near)(f)
            out.append((1 if k == "sem" else r.randint(0, 1) if k == "uid" else 0, f if h < 0.8 else r.choice(fn), list(parts), k,
                        t if h > 0.4 else r.choice([t + 1, t + 1, t + 100, t + 10 ** 6, t + 10 ** 9, t ^ 64, r.randint(0, 12)])))
            continue
        out.append((1 if k == "sem" else r.randint(0, 1) if k == "uid" else 0, r.choice(fn), parts, k, r.choice([0, 1, 2, 11, 12, 111, 10 ** 18, now, now + 1, now + 999, now + 10 ** 6, now + 10 ** 9])))
    return out


def answer(reqs):
    """the identities the library gives, in this order"""
    from rei.hypergraph.base_elements import HypergraphNode
    from world import World
    out = []
    for c, fname, parts, k, t in reqs:
        w = World("x")
        w.clocks[0].t = t
        f = (w.factory if c == 0 else w.semfactory)(fname, 1)
        p = None
        for j, q in enumerate(parts[:-1]):
            p = HypergraphNode(q, b"p%d" % j, q, w.clocks[0], p)
        out.append(make_uid(f, k, parts[-1], p).hex())
    return out


class Identities:
    def __call__(self, name, seed, length):
        r = random.Random("%s/%s" % (name, seed))
        reqs = requests(r, length)
        w = Obs(name)
        # in this process; in another order; in another process with another hash seed
        runs = [(reqs, answer(reqs))]
        mixed = list(reqs)
        r.shuffle(mixed)
        env = dict(os.environ, PYTHONHASHSEED=str(r.randint(1, 4000000)), PYTHONDONTWRITEBYTECODE="1")
        code = "import sys,json;sys.path.insert(0,%r);import special;print(json.dumps(special.answer(json.load(sys.stdin))))" \
            % os.path.dirname(os.path.abspath(__file__))
        p = subprocess.run([sys.executable, "-c", code], input=json.dumps(mixed).encode(), env=env, capture_output=True)
        if p.returncode:
            raise RuntimeError(p.stderr.decode()[-800:])
        runs.append((mixed, json.loads(p.stdout.decode().splitlines()[-1])))
        for rs, ans in runs:
            for (c, f, parts, k, t), u in zip(rs, ans):
                # edges, values and semantic elements ask for their own name, nodes for their place in the hierarchy
                full = parts[-1] if k in ("edge", "value", "sem", "uid") else "/".join(parts)
                w.ident(f, full, w.tok(u.encode()), str(t))
        return w.trace()


# ---- clocks of the machine ---------------------------------------------------
class Clocks:
    """Elements whose time is the machine's, or always nought."""

    def __call__(self, name, seed, length):
        import time
        from rei.factories.foundation_factory import HypergraphFactory
        from rei.foundations.clock import DummyClock, LocalClock
        r = random.Random("%s/%s" % (name, seed))
        w = Obs(name)
        t0 = time.time_ns()
        us = lambda t: (t - t0) // 1000 if isinstance(t, int) else -777
        fs = [HypergraphFactory("f", LocalClock()), HypergraphFactory("g", DummyClock())]
        els = []
        for i in range(length):
            k = r.randint(0, 1)
            f = fs[k]
            a = time.time_ns()
            h = r.randint(0, 4)
            if h == 0 or len(els) < 4:
                x = f.generate_node("n%d" % i)
                els.append((k, x))
            elif h == 1:
                k, x = r.choice(els)
                x = f.create_hyperedge(x, "e%d" % i)     # an edge has the clock of its container
            elif h == 2:
                (_, p), (k, x) = r.sample(els, 2)
                try:
                    p.add_element(x)
                except Exception:                        # noqa: BLE001
                    continue
            elif h == 3:
                k, x = r.choice(els)
                if x.parent is None:
                    continue
                x.deregister()
            else:
                k, x = r.choice(els)
                v, s = x.clock.get_time_ns(), x.clock.get_time_sec()
                b = time.time_ns()
                w.emit("clock", dict(**{"from": us(a) if k == 0 else 0, "read": us(v) if k == 0 else v, "to": us(b) if k == 0 else 0},
                                     what="ns"), "ok", [])
                sec = int(s * 1000) - t0 // 10 ** 6 if k == 0 else int(s * 1000)
                w.emit("clock", dict(**{"from": us(a) // 1000 - 2 if k == 0 else 0, "read": sec,
                                        "to": us(b) // 1000 + 2 if k == 0 else 0}, what="sec"), "ok", [])
                continue
            b = time.time_ns()
            t = x.timestamp
            w.emit("clock", dict(**{"from": us(a) if k == 0 else 0, "read": us(t) if k == 0 else t, "to": us(b) if k == 0 else 0},
                                 what="stamp"), "ok", [])
        return w.trace()


# ---- leftovers of a search ---------------------------------------------------
class Leftover:
    """A search that stops at a match, followed by searches in other trees (see known_findings.json)."""

    def __call__(self, name, seed, length):
        return forked(lambda: self.one(name, seed))

    def one(self, name, seed):
        w = Obs(name)
        w.limit = 5
        a = w.new("node", "a", b"1")
        w.new("node", "b", b"2", a)
        w.new("node", "c", b"3", a)
        x = w.new("node", "x", b"4")
        bi = name.endswith("1")
        w.search(w.searcher(bi), a, "a/b", flush=False)
        w.search(w.searcher(bi), x, "a/c", flush=False)
        return w.trace()
