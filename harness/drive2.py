"""Histories with observing operations."""
from drive import UIDS, Driver
from observe import Obs, Traversal, returned
from world import EXO, EXOTIC, classify, kind, run_async

from rei.hypergraph.factorization_operations import (Factorization2Operation, Factorization2SubsetOperation,
                                                     RelationFactorization2SubsetOperation)
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.query.query_engine import HypergraphQueryEngine
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer

MUT = dict(new=2, newp=6, add=8, rmu=2, rmn=1, dereg=1, conn=4, connsv=2, fnode=3, fedge=2, fval=2, fsem=3, tick=1, disc=1,
           rmrel=1)


class ObsDriver(Driver):
    """Any hierarchy; traversals, searches, queries, indexing in between changes."""
    relkids = False

    def __init__(self, name, seed, prof, **k):
        super().__init__(name, seed, prof, world=Obs, **k)
        self.trs = []
        self.srs = [self.w.searcher(True), self.w.searcher(False)]
        self.engines = [self.w.engine() for _ in range(2)]
        self.queries = []
        self.homs = {}
        self.boom = 0

    def subset(self, p=None):
        n = len(self.w.objs)
        h = self.r.random()
        if h < 0.35:
            return set(range(1, n + 1))
        if h < 0.5:
            k = self.r.choice(["node", "edge", "rel"])
            return set(self.of(k, "node"))
        q = p or self.r.choice([0.5, 0.8, 0.95])
        return {j for j in range(1, n + 1) if self.r.random() < q}

    def start(self):
        c = self.of("node", "edge", "sem", "val")
        big = [i for i in c if self.kids(i)]
        return self.r.choice(big) if big and self.r.random() < 0.85 else self.r.choice(c) if c else 0

    def top(self):
        """the root with most below it"""
        i = self.start()
        if i and self.r.random() < 0.6:
            x = self.w[i]
            while x.parent is not None:
                x = x.parent
            i = self.w.id(x)
        return i

    def do_trav(self, boom=False):
        st = self.top()
        if not st:
            return
        r = self.r
        if self.trs and r.random() < 0.4:
            t = r.choice(self.trs)
        else:
            t = Traversal(self.w, r.choice("bd"), r.choice([-1, -1, 0, 1, 2, 3, 5]), r.random() < 0.3)
            self.trs.append(t)
        t.nul = r.choice([0, 0, 1, 2, 3])
        self.w.trav(t, st, self.subset(), r.randint(1, 6) if boom else 0)

    def do_show(self):
        st = self.top()
        x = self.w[st] if st else None
        # a relation has something to print as long as it has an endpoint
        if x is not None and not (kind(x) == "edge" and x.parent is None) and \
                all(y.endpoint is not None for y in self.w.objs if kind(y) == "rel"):
            self.w.show(st)

    def do_held(self):
        self.w.held()

    def do_boom(self):
        self.do_trav(True)

    def do_srch(self):
        st = self.start()
        if not st:
            return
        r = self.r
        if r.random() < 0.2:
            self.srs.append(self.w.searcher(r.random() < 0.5))
        q = r.choice(self.srs[-4:])
        h = r.random()
        if h < 0.25 and q.query_def:
            name = q.query_def
        elif h < 0.9:
            name = r.choice(self.w.objs).qualified_name
        else:
            name = r.choice(["zz", "", "a/a/a/a/zz", self.w[st].id_name])
        self.w.search(q, st, name)

    def do_qeng(self):
        r = self.r
        e = r.choice(self.engines)
        own = [x for x in self.w.objs if isinstance(x, HypergraphQueryEngine)]
        if own and r.random() < 0.5:             # an engine that is itself an element of the graph
            e = r.choice(own)
            if not hasattr(e, "_log"):
                e._log = []
        for _ in range(r.randint(0, 2)):
            st = self.top()
            if not st:
                return
            h = r.random()
            if h < 0.1:
                self.w.eclear(e)
            else:
                if self.queries and h < 0.3:
                    q = r.choice(self.queries)
                else:
                    q = self.w.query(st, self.subset(0.4), self.subset())
                    self.queries.append(q)
                self.w.eadd(e, r.choice("pqr"), q)
        self.w.erun(e, r.random() < 0.5, r.randint(1, 8) if r.random() < self.boom else 0)

    def dupuid(self, st):
        """identifiers name elements only below one parent: pairs need them unique"""
        us = [x.uuid for x in self.w.objs if kind(x) in ("node", "edge")]
        return len(set(us)) != len(us)

    def do_hyp(self, boom=False):
        st = self.pick("node", "edge")
        if self.r.random() < 0.1:
            st = self.r.choice([i for i in self.of("rel") if kind(self.w[i].parent) == "edge"] or [st])
        if st and not self.dupuid(st):
            self.w.hyper(st, self.r.choice(["sum", "sum", "prod"]), self.r.choice([-1, -1, 1, 2, 3]),
                         self.r.randint(1, 5) if boom else 0)

    def do_hypboom(self):
        self.do_hyp(True)

    def runs(self, n):
        """n runs of different kinds, to be started together"""
        r, w = self.r, self.w
        out = []
        for _ in range(n):
            h = r.random()
            st = self.top()
            if not st:
                continue
            if h < 0.6:
                t = Traversal(w, r.choice("bd"), r.choice([-1, -1, 1, 2, 3]), r.random() < 0.3)
                flt, fail = self.subset(), r.choice([0, 0, 0, 2])

                def ev(o, v, t=t, st=st):
                    ret = returned(v) if o == "ok" else []
                    w.emit("trav", t.args(st), o, [list(t.vis), ret])
                out.append((lambda t=t, st=st, flt=flt, fail=fail: t.start(st, flt, fail), ev))
            elif h < 0.8:
                e = w.engine()
                w.eadd(e, "q", w.query(st, self.subset(0.4), self.subset()))
                out.append((lambda e=e: e.execute(),
                            lambda o, v, e=e: w.emit("qeng", dict(log=w.elog(e), sync=False, fail=0), o,
                                                     w.ids(v) if o == "ok" else [])))
            else:
                op = Factorization2Operation()
                st = self.pick("node", "edge") or st
                out.append((lambda op=op, st=st: op.execute(w[st]),
                            lambda o, v, st=st: w.emit("fac", dict(st=st), o,
                                                       sorted([w.id(i)] + sorted(w.ids(q)) for i, q in v) if o == "ok" else [])))
        return out

    def do_gather(self):
        self.w.together(self.runs(self.r.randint(2, 4)))

    def do_within(self):
        """runs started while another one is under way, in its visitor"""
        st = self.top()
        if not st:
            return
        r, w = self.r, self.w
        inner = self.runs(r.randint(1, 2))

        def inside():
            for mk, ev in inner:
                c = mk()
                try:
                    c.send(None)
                    res = ("exc", None)                # it would have to wait
                    c.close()
                except StopIteration as ex:
                    res = ("ok", ex.value)
                except Exception as ex:                # noqa: BLE001
                    res = (classify(ex), None)
                got.append((ev, res))
        got = []
        t = Traversal(w, r.choice("bd"), -1, False)
        out, val = w.attempt(lambda: run_async(t.start(st, self.subset(), 0, inside)))
        ret = returned(val) if out == "ok" else []
        w.emit("trav", t.args(st), out, [list(t.vis), ret])
        for ev, res in got:
            ev(*res)

    def do_index(self):
        r = self.r
        st = self.pick("node") if r.random() < 0.3 else self.top()
        if not st or kind(self.w[st]) != "node":
            return
        us, todo = [], [self.w[st]]
        while todo:
            x = todo.pop()
            us.append(x.uuid)
            todo.extend(self.w.children(x))
        if len(set(us)) != len(us):
            return
        k = (r.choice([1, 1, 2, 3]), r.random() < 0.4)
        if k not in self.homs or r.random() < 0.3:
            self.homs[k] = IndexHomomorphismGraphTensor(k[1], k[0]) if k != (1, False) else IndexHomomorphismGraphTensor()
        self.w.index(self.homs[k], st, *k)


class FlatDriver(ObsDriver):
    """Contexts whose edges join their own direct nodes (or the context itself):
    the graphs tensors, encodings and factorizations are about."""

    def __init__(self, name, seed, prof, nested=False, dups=0, late=0, ctxs=(1, 2), few=False, fano=False, **k):
        super().__init__(name, seed, prof, **k)
        self.fano = fano
        self.ctxs, self.few = ctxs, few
        self.late = late           # how often things are reordered after they were indexed
        self.exo = set()           # value nodes that hold anything
        self.nested = nested
        self.w.parts = self.r.choice([1, 1, 4])       # values may be quarters
        self.dups = dups           # how often a name is used again
        self.rootp = self.r.choice([0, 0, 0.2])
        self.ctx = []
        self.no = 0
        self.codecs = []
        self.copies = []       # (codec, copy, number, context, index epoch)
        self.epoch = {}
        # no edges lie deeper than those of the context
        self.trf = [NumpyHypergraphTensorTransformer(*d) for d in ((), (2,), (4,))]
        self.f2, self.f2s = Factorization2Operation(), {}

    def fresh(self, p):
        if p in "nev" and self.r.random() < self.dups:
            return p + str(self.r.randint(1, 3))
        self.no += 1
        return p + str(self.no)

    def run(self, n):
        r = self.r
        if self.fano:
            c, f = self.w.fano("fano", r.randint(1, 2))
            if not c:
                return self.w.trace()
            self.ctx.append(c)
            self.fac.append(f)
        for _ in range(r.randint(*self.ctxs) if not self.fano else 0):
            if r.random() < 0.8:
                c = self.w.fnode(r.choice(self.fac), self.fresh("ctx"))
            else:
                c = self.w.new("node", self.fresh("ctx"), r.choice([b"", b"\0", b"0", self.fresh("id").encode()]), 0, r.randint(1, 2))
            self.ctx.append(c)
            for _ in range(r.randint(0, 5)):
                self.do_gnode(c)
            for _ in range(r.randint(0, 2)):
                self.do_gval(c)
            for _ in range(r.randint(0, 3)):
                self.do_gedge(c)
        ks, ws = list(self.prof), list(self.prof.values())
        g = 0
        while len(self.w.ev) < n and g < 6 * n and not self.w.broken:
            g += 1
            getattr(self, "do_" + r.choices(ks, ws)[0])()
        return self.w.trace()

    def c(self):
        return self.r.choice(self.ctx)

    def inside(self, c, *ks):
        return [self.w.id(x) for x in self.w.children(self.w[c]) if kind(x) in ks]

    def changed(self, c):
        """the structure of c changes: value messages are about the structure a copy was decoded from"""
        self.epoch[c] = self.epoch.get(c, 0) + 1

    def do_gnode(self, c=None):
        c = c or self.c()
        if self.full():
            return
        self.changed(c)
        if self.r.random() < 0.5:
            self.w.fnode(self.r.choice(self.fac), self.fresh("n"), c)
        else:
            self.w.new("node", self.fresh("n"), self.ident(), c, self.r.randint(1, 2))

    def ident(self):
        """an identifier; few: elements of other containers may have it"""
        return self.r.choice(UIDS) if self.few else self.fresh("id").encode()

    def do_gval(self, c=None):
        c = c or self.c()
        if self.full():
            return
        self.changed(c)
        exo = self.r.random() < self.exotic * 2
        vals = [self.num(exo) for _ in range(self.r.choice([0, 1, 1, 2, 3, 3, 9]))]
        if self.r.random() < 0.7:
            i = self.w.fval(self.r.choice(self.fac), self.fresh("v"), c, vals)
        else:
            i = self.w.new("val", self.fresh("v"), self.fresh("id").encode(), vals=vals)
            self.w.add(c, i)
        if exo and i:
            self.exo.add(i)

    def num(self, exo=False):
        if exo and self.r.random() < 0.5:
            return EXO + self.r.randrange(len(EXOTIC))
        return self.r.choice([-3, -1, 0, 0, 1, 2, 5, 7, 20001] if self.r.random() < 0.3 else [-4, -1, 0, 0, 1, 2, 3, 9])

    def weights(self, c):
        return [i for i in self.inside(c, "val") if i not in self.exo]

    def do_gedge(self, c=None):
        c = c or self.c()
        if self.full():
            return
        r = self.r
        self.changed(c)
        ns = self.inside(c, "node")
        if r.random() < self.rootp:
            ns = ns + [c]
        r.shuffle(ns)
        ns = ns[:r.choice([0, 1, 2, 2, 3, 3, 4, 5])]
        h = r.randint(0, len(ns))
        a, b = ns[:h], ns[h:]
        vs = self.weights(c)
        mode = r.choice(["create", "nodes", "two", "dir", "tup", "tup", "two"])
        vals = None
        if vs and r.random() < 0.6:
            vals = [r.choice(vs) for _ in range(len(a) + (len(b) if mode == "two" else 0))]
        cs = [(i, r.randint(0, 2), r.choice([0] + vs), 0) for i in ns]
        self.w.fedge(r.choice(self.fac), self.fresh("e"), c, mode, a, b, r.randint(0, 2), r.randint(0, 2),
                     vals if mode in ("nodes", "two") else None, cs if mode == "tup" else ())

    def do_glink(self):
        """an edge ends at anything: a context, a member of another one, an edge"""
        es = [e for c in self.ctx for e in self.inside(c, "edge")]
        if es and not self.full():
            c = self.c()
            x = self.r.choice([c, c] + self.inside(c, "node", "edge"))
            if not self.weights(c) or self.r.random() < 0.7:
                wt = 0
            else:
                wt = self.r.choice(self.weights(c))
            self.w.conn(self.r.choice(es), x, wt, self.r.randint(0, 2))

    def do_gtwin(self):
        """the same again in every context: nodes and an edge of one name"""
        k, r = self.r.randint(1, 9), self.r
        d1, d2 = r.choice([(0, 1), (1, 0), (2, 2), (0, 2), (0, 1)])
        f = r.choice(self.fac)
        for c in self.ctx:
            self.changed(c)
            names = {self.w[i].id_name: i for i in self.inside(c, "node")}
            ab = [names.get(x) or self.w.fnode(f, x, c) for x in ("n%d" % (k % 3), "n%d" % (k % 3 + 1))]
            if all(ab):
                self.w.fedge(f, "e%d" % k, c, "two", ab[:1], ab[1:], d1, d2, None, ())

    def do_gconn(self):
        c = self.c()
        es, ns = self.inside(c, "edge"), self.inside(c, "node")
        if es and ns and not self.full():
            e = self.r.choice(es)
            used = {self.w.id(x.endpoint) for x in self.w[e].sub_relations}
            ns = [n for n in ns if n not in used]
            if ns:
                self.changed(c)
                self.w.conn(e, self.r.choice(ns), self.r.choice([0] + self.weights(c)), self.r.randint(0, 2))

    def do_ghrel(self):
        """a relation the program builds itself, with its port"""
        c = self.c()
        es, ns = self.inside(c, "edge"), self.inside(c, "node")
        if es and ns and not self.full():
            self.changed(c)
            self.no += 1
            x = self.r.choice(ns)
            r = self.w.newrel("hand%d" % self.no, b"hand%d" % self.no, x, self.r.choice([0] + self.weights(c)),
                              self.r.randint(0, 2))
            if r:
                self.w.port(x, r)
                self.w.add(self.r.choice(es), r)

    def do_grmrel(self):
        c = self.c()
        rs = [(e, x) for e in self.inside(c, "edge") for x in self.w[e].sub_relations]
        if rs:
            self.changed(c)
            e, x = self.r.choice(rs)
            if self.r.random() < 0.8:
                self.w.disc(self.w.id(x.endpoint), self.w.id(x))
            self.w.rm(e, "", x.uuid)

    def do_grmedge(self):
        c = self.c()
        es = self.inside(c, "edge")
        if es:
            self.changed(c)
            e = self.w[self.r.choice(es)]
            for x in list(e.sub_relations):
                self.w.disc(self.w.id(x.endpoint), self.w.id(x))
            self.w.rm(c, "", e.uuid)

    def do_grmnode(self):
        c = self.c()
        ns = self.inside(c, "node")
        if ns:
            self.changed(c)
            n = self.r.choice(ns)
            for e in self.inside(c, "edge"):
                for x in list(self.w[e].sub_relations):
                    if self.w.id(x.endpoint) == n:
                        self.w.disc(n, self.w.id(x))
                        self.w.rm(e, "", x.uuid)
            self.w.rm(c, "", self.w[n].uuid)

    def do_greadd(self):
        """a removed node or value comes (back) into a context"""
        c = self.c()
        out = [i for i in self.of("node", "val") if self.w[i].parent is None and i not in self.ctx]
        if out:
            self.changed(c)
            self.w.add(c, self.r.choice(out))

    def do_gvals(self):
        c = self.c()
        vs = self.inside(c, "val")
        if vs:
            i = self.r.choice(vs)
            n = len(self.w[i].get_values())
            x = self.num(i in self.exo)
            if n and self.r.random() < 0.5:
                self.w.vset(i, self.r.randint(0, n - 1), x, self.r.random() < 0.5)
            else:
                self.w.vall(i, [self.num(i in self.exo) for _ in range(self.r.choice([0, 1, 1, 2, 3]))])

    def do_gnest(self):
        """hierarchy below a member (indexing, traversal; not encodings)"""
        ns = self.inside(self.c(), "node")
        if ns and self.nested and not self.full():
            self.w.fnode(self.r.choice(self.fac), self.fresh("sub"), self.r.choice(ns))

    # -- observations ----------------------------------------------------
    def do_tens(self):
        c = self.c()
        # the tensors index the members of a context, not the context itself
        if any(x.endpoint is self.w[c] for e in self.inside(c, "edge") for x in self.w[e].sub_relations):
            return
        if not self.inside(c, "edge", "node"):
            return
        if self.r.random() < 0.1:
            return self.w.retensor(c)
        t = self.w.tensor(c, self.r.choice(self.trf + [None]))
        if t is not None and self.inside(c, "edge") and self.inside(c, "node"):
            self.w.laplace(t, len(self.inside(c, "node")))
            self.w.entropies(t, len(self.inside(c, "node")))

    def do_coo(self):
        self.w.coo(self.c(), self.r.choice([(), (), (1,), (3,)]))

    def do_enc(self):
        r, w = self.r, self.w
        c = self.c()
        mine = [g for g in self.codecs if g._c == c]
        if mine and r.random() < 0.6:
            g = r.choice(mine)
        else:
            g = w.codec(c, r.choice(["x", "y"]), r.randint(1, 2))
            self.codecs.append(g)
        late = lambda: self.shuffle(c) if r.random() < self.late else None
        msg = w.encode(g, late)
        g._epoch = self.epoch.get(c, 0)
        if msg is None:
            return
        if r.random() < 0.3:
            again = w.encode(g)
            msg = again if again is not None else msg
        if r.random() < 0.4:
            w.coomsg(c, msg, g._ctx)
        if r.random() < 0.6:
            h = r.choice([g, w.codec(c, "dec", r.randint(1, 2))])
            root, d = w.decode(h, msg, c, g._ctx)
            if root is not None:
                self.copies = [x for x in self.copies if x[0] is not h]
                self.copies.append((h, root, d, c, g, self.epoch.get(c, 0), g._order))

    def shuffle(self, c):
        """members of a context change their order, nothing else"""
        for _ in range(self.r.randint(1, 3)):
            m = self.inside(c, "node", "edge", "val", "val")
            if m:
                i = self.r.choice(m)
                self.w.rm(c, "", self.w[i].uuid)
                self.w.add(c, i)

    def do_upd(self):
        r, w = self.r, self.w
        live = [x for x in self.copies if x[5] == x[4]._epoch == self.epoch.get(x[3], 0) and x[6] == x[4]._order]
        if not live:
            return
        h, root, d, c, g = r.choice(live)[:5]
        if r.random() < self.late:
            self.shuffle(c)
        msg, m = w.vmsg(g)
        if msg is None:
            return
        # a change after the message must not show
        if r.random() < 0.4:
            self.do_gvals()
        w.vapply(h, msg, m, root, d)
        if r.random() < 0.4:
            self.do_gvals()
            w.look(root, d)

    def do_look(self):
        if self.copies:
            h, root, d, c, g = self.r.choice(self.copies)[:5]
            self.w.look(root, d)

    def do_fac(self):
        st = self.c() if self.r.random() < 0.6 else self.pick("node", "edge")
        self.w.factor(st, self.r.choice([self.f2, None]))

    def sel(self, *ks):
        p = self.r.choice([0.5, 0.8, 1.0])
        c = [i for i in self.of(*ks) if self.r.random() < p]
        self.r.shuffle(c)
        return c

    def do_facsub(self):
        k = self.r.random() < 0.4
        op = None
        if self.r.random() < 0.5:
            op = self.f2s.setdefault(("s", k), Factorization2SubsetOperation(k))
        v = self.w.factorsub(self.sel("node", "edge"), k, op)
        if v:
            self.w.factormap(v)

    def do_facrel(self):
        k = self.r.random() < 0.4
        op = None
        if self.r.random() < 0.5:
            op = self.f2s.setdefault(("r", k), RelationFactorization2SubsetOperation(k))
        v = self.w.factorrel(self.sel("rel") + self.sel("node")[:2], k, op)
        if v:
            self.w.factormap(v)

    def do_gfind(self):
        self.do_find()


FLATMUT = dict(gnode=3, gval=2, gedge=4, gconn=3, grmrel=2, grmedge=1, grmnode=1, greadd=1, gvals=4, tick=3)


class RawDriver(ObsDriver):
    """Degrees and Laplacians of given tensors."""

    def do_raw(self):
        r = self.r
        e, n = r.randint(1, 3), r.randint(1, 4)
        pool = r.choice([[0, 1], [0, 0, 1, 2], [-2, 0, 1, 3], [200000, 200001, 0], [0, 0, 0, 1]])
        self.w.parts = r.choice([1, 1, 1, 4])
        W = [[[r.choice(pool) for _ in range(n)] for _ in range(n)] for _ in range(e)]
        Io = [[r.choice(pool) for _ in range(n)] for _ in range(e)]
        Ii = [[r.choice(pool) for _ in range(n)] for _ in range(e)] if r.random() < 0.6 else [list(x) for x in Io]
        if r.random() < 0.3:                       # equal sums, different places
            Ii = Io[1:] + Io[:1]
        if r.random() < 0.3:
            W = [[[m[j][i] if i < j else m[i][j] for j in range(n)] for i in range(n)] for m in W]
        t = self.w.rawtensor(W, Io, Ii)
        self.w.laplace(t, n)
        self.w.entropies(t, n)
