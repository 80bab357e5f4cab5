"""Histories: random and directed programs over the real library."""
import random

from world import EXO, EXOTIC, World, kind

NAMES = ["a", "b", "c", "d", "a", "b", "é", "a.b", "", "port", "x y", "A", "Link_1", " a", "a ", "0", "é́", "B" * 40]
UIDS = [b"1", b"2", b"3", b"4", b"5", b"6", b"7", b"8", b"", b"\xff\x00", b"\0" * 28]

BASE = dict(new=4, newp=4, add=8, reg=2, rmu=3, rmn=3, rmnu=2, rmp=1, rmbad=2, dereg=2, addm=2, rmm=2,
            conn=5, connsv=1, disc=2, rmrel=1, rmport=1, fnode=3, fnodes=1, fedge=3, fval=2, fsem=2, fsembad=1,
            vset=2, vall=2, aset=1, adel=1, find=5, get=2, setck=1, kids=2, views=3, incid=1, vread=1, tick=6)


def profile(**kw):
    """Only the operations named, with their weights; base=True starts from BASE."""
    if kw.pop("base", False):
        d = dict(BASE)
        d.update(kw)
        return d
    return kw


KEYS = ["name", "mass", "t", "axis", "name", "mass", "Name", "values", " t", "", "é", "joint_type", "a.b"]


class Driver:
    groups = [0, 1, 2, 3]          # sizes of groups of endpoints
    relkids = True                 # nodes and edges also go below relations

    def __init__(self, name, seed, prof, names=None, uids=None, maxel=26, world=World, focus=0, exotic=0):
        self.r = random.Random("%s/%s" % (name, seed))
        self.w = world(name)
        self.prof = prof
        self.names = names or self.r.choice([NAMES, NAMES[:4], NAMES[:2], NAMES, ["Aa", "Ab", "aA", "Bc"]])
        self.uids = uids or self.r.choice([UIDS, UIDS[:3], [("u%d" % i).encode() for i in range(60)]])
        self.fac = [self.w.factory("f", 1), self.w.factory("g", 2), self.w.factory("f", 2)]
        self.sem = [self.w.semfactory("s", 1), self.w.semfactory("f", 1)]
        self.maxel = maxel
        self.mine = []
        self.focus = focus         # new children mostly go to the first few containers
        self.serial = 0
        self.exotic = exotic       # how often values are not small numbers

    # -- picking ---------------------------------------------------------
    def of(self, *ks):
        return [i + 1 for i, x in enumerate(self.w.objs) if kind(x) in ks]

    def pick(self, *ks):
        c = self.of(*ks)
        return self.r.choice(c) if c else 0

    def name(self):
        return self.r.choice(self.names)

    def uid(self):
        if self.r.random() < (0.9 if self.focus else 0.5):
            self.serial += 1
            return b"s%d" % self.serial
        # identifiers may look like names
        return self.name().encode() if self.r.random() < 0.2 else self.r.choice(self.uids)

    def kids(self, p):
        return self.w.children(self.w[p])

    def par(self):
        c = [i for i in self.of("node", "edge", "sem", "val", *["rel"] * self.relkids)]
        withkids = [i for i in c if self.kids(i)]
        if withkids and self.r.random() < 0.75:
            return self.r.choice(withkids)
        return self.r.choice(c) if c else 0

    def full(self):
        return len(self.w.objs) >= self.maxel

    # -- operations ------------------------------------------------------
    def do_tick(self):
        self.w.tick(self.r.choice([0, 1, 2, 3, 3, -1, -5]), self.r.choice([None, 0, 1]))

    def do_new(self):
        if self.full():
            return
        k = self.r.choice(["node", "node", "edge", "val", "sem"])
        self.w.new(k, self.name(), self.uid(), 0, self.r.randint(1, 2),
                   vals=[self.r.randint(-3, 9) for _ in range(self.r.randint(0, 3))] or None if k == "val" else None, cls=self.nodecls(k))

    def do_newp(self):
        p = self.pick("node", "node", "edge", "sem")
        if self.relkids and self.r.random() < 0.05:
            p = self.pick("rel") or p
        if self.focus and self.r.random() < 0.8:
            p = self.r.choice(self.of("node", "edge")[:self.focus] or [p])
        if p and not self.full():
            k = self.r.choice(["node", "node", "edge"])
            self.w.new(k, self.name2(p), self.uid2(p), p, self.r.randint(1, 2), cls=self.nodecls(k))

    def name2(self, p):
        """a name for a child of p, sometimes that of a port there"""
        q = [x for x in self.kids(p) if kind(x) == "port"]
        return self.r.choice(q).id_name if q and self.r.random() < 0.12 else self.name()

    def uid2(self, p):
        """an identifier for a child of p; below a relation sometimes that of its endpoint"""
        x = self.w[p]
        if kind(x) == "rel" and x.endpoint is not None and self.r.random() < 0.4:
            return x.endpoint.uuid
        return self.uid()

    def nodecls(self, k):
        return "HypergraphQueryEngine" if k == "node" and self.r.random() < 0.06 else None

    def do_chain(self):
        """a long chain, below the deepest element"""
        c = self.of("node", "edge")
        if not c:
            return
        p = max(c, key=lambda i: self.w[i].depth) if self.r.random() < 0.8 else self.r.choice(c)
        for _ in range(self.r.randint(2, 12)):
            if self.full() or self.w.broken:
                return
            self.w.new("node", self.name(), self.uid(), p, self.r.randint(1, 2))
            p = len(self.w.objs)

    def do_add(self, reg=False):
        c = self.of("node", "edge", "val", "sem") if self.r.random() < 0.95 else self.of("node", "edge", "val", "sem", "rel")
        if reg:
            c = self.of("node", "edge")
        if not c:
            return
        c = self.r.choice(c)
        p = self.pick("node", "node", "edge", "sem", "val") if kind(self.w[c]) != "rel" else self.pick("edge", "node")
        if kind(self.w[c]) in ("sem", "val") and self.r.random() < 0.05:
            p = self.pick("rel") or p
        # a node or edge that goes below a relation is connected to it by that
        if self.relkids and kind(self.w[c]) in ("node", "edge") and self.r.random() < 0.12:
            p = self.pick("rel") or p
        if p:
            self.w.add(p, c, reg)

    def do_reg(self):
        self.do_add(True)

    def do_rmu(self):
        p = self.par()
        k = [x for x in self.kids(p) if kind(x) != "port"] if p else []
        if k:
            self.w.rm(p, "", self.r.choice(k).uuid)

    def do_rmn(self, lim=-1):
        p = self.par()
        k = self.kids(p) if p else []
        k = [x for x in k if x.id_name]
        if k:
            self.w.rm(p, self.r.choice(k).id_name, None, lim)

    def do_rmp(self):
        self.do_rmn(self.r.randint(0, 2))

    def do_rmnu(self):
        p = self.par()
        k = self.kids(p) if p else []
        if k:
            a = self.r.choice(k)
            b = self.r.choice(k) if self.r.random() < 0.3 else a
            self.w.rm(p, a.id_name, b.uuid)

    def do_rmbad(self):
        p = self.par()
        if not p:
            return
        h = self.r.randint(0, 3)
        anyel = self.r.choice(self.w.objs)
        if h == 0:
            self.w.rm(p)
        elif h == 1:
            self.w.rm(p, "", anyel.uuid)
        elif h == 2:
            self.w.rm(p, anyel.id_name, anyel.uuid)
        else:
            self.w.rm(p, anyel.id_name or "zz")

    def do_dereg(self):
        c = self.pick("node", "edge")
        if c:
            self.w.dereg(c)

    def do_addm(self):
        p = self.pick("node", "edge")
        c = self.of("node", "edge", "val", "sem")
        if p and c:
            self.w.addm(p, [self.r.choice(c) for _ in range(self.r.randint(0, 3))])

    def do_rmm(self):
        p = self.pick("node", "edge")
        if not p:
            return
        k = self.kids(p)
        qs = []
        for _ in range(self.r.randint(0, 3)):
            if k and self.r.random() < 0.85:
                x = self.r.choice(k)
                h = self.r.random()
                qs.append((x.id_name, x.uuid) if h < 0.4 else ("", x.uuid) if h < 0.7 else (x.id_name, None))
            else:
                x = self.r.choice(self.w.objs)
                qs.append((x.id_name, x.uuid))
        self.w.rmm(p, qs)

    def do_conn(self, sv=False):
        e, x = self.pick("edge"), self.pick("node", "node", "edge")
        if not e or not x or self.full():
            return
        wv = self.pick("val") if self.r.random() < 0.5 else 0
        s = self.pick("sem") if sv else 0
        if s and self.w[s].parent is not None:
            s = 0
        self.w.conn(e, x, wv, self.r.randint(0, 2), s)

    def do_connsv(self):
        self.do_conn(True)

    def do_hrel(self, e=0, x=0):
        e, x = e or self.pick("edge", "edge", "node"), x or self.pick("node", "node", "edge")
        if not e or not x or self.full():
            return
        r = self.r
        sem = [i for i in self.of("sem") if self.w[i].parent is None]
        rel = self.w.newrel(self.name(), self.uid(), x, self.pick("val") if r.random() < 0.5 else 0, r.randint(0, 2),
                            r.choice(sem) if sem and r.random() < 0.2 else 0)
        if rel and r.random() < 0.7:
            self.w.port(x, rel)
        if rel and r.random() < 0.85:
            self.w.add(e, rel)

    def do_hport(self):
        h = sorted(self.w.hand)
        if h:
            r = self.r.choice(h)
            x = self.w.id(self.w[r].endpoint) if self.r.random() < 0.7 else self.pick("node", "edge")
            if x > 0:
                self.w.port(x, r)

    def do_disc(self):
        r = self.pick("rel")
        if r:
            x = self.w.id(self.w[r].endpoint) if self.r.random() < 0.8 else self.pick("node", "edge")
            if x > 0:
                self.w.disc(x, r)

    def do_rmrel(self):
        r = self.pick("rel")
        if r and self.w[r].parent is not None:
            e = self.w.id(self.w[r].parent)
            h = self.r.randint(0, 2)
            x = self.w[r]
            self.w.rm(e, x.id_name if h < 2 else "", x.uuid if h != 1 else None)

    def do_below(self):
        """something is put below a relation, or taken from there"""
        rs = self.of("rel")
        if not rs:
            return
        withkids = [i for i in rs if self.kids(i)]
        if withkids and self.r.random() < 0.6:
            p = self.r.choice(withkids)
            x = self.r.choice(self.kids(p))
            h = self.r.randint(0, 3)
            self.w.rm(p, x.id_name if h < 2 else "", x.uuid if h != 1 or not x.id_name else None)
        elif not self.full():
            p = self.r.choice(withkids or rs)
            self.w.new(self.r.choice(["node", "edge"]), self.name(), self.uid2(p), p, 1)

    def do_rmport(self):
        q = self.pick("port")
        if q and self.w[q].parent is not None:
            self.w.rm(self.w.id(self.w[q].parent), "", self.w[q].uuid)

    def do_fnode(self):
        if not self.full():
            self.w.fnode(self.r.choice(self.fac), self.name(), self.r.choice([0, self.pick("node", "edge", *["rel"] * (self.relkids and self.r.random() < 0.2))]))

    def do_fnodes(self):
        if not self.full():
            self.w.fnodes(self.r.choice(self.fac), [self.name() for _ in range(self.r.randint(0, 3))],
                          self.r.choice([0, self.pick("node")]))

    def do_fedge(self):
        p = self.pick("node", "node", "edge")
        if not p or self.full():
            return
        r = self.r
        els = self.of("node", "node", "edge")
        some = lambda: [r.choice(els) for _ in range(r.choice(self.groups))]
        a, b = some(), some()
        if r.random() < 0.7:                 # mostly distinct endpoints with distinct names
            seen = set()
            out = []
            for i in a + b:
                if self.w[i].id_name not in seen:
                    seen.add(self.w[i].id_name)
                    out.append(i)
            h = r.randint(0, len(out))
            a, b = out[:h], out[h:]
        vs = self.of("val")
        vals = None
        mode = r.choice(["create", "nodes", "two", "dir", "tup"])
        if vs and r.random() < 0.5:
            n = len(a) + (len(b) if mode == "two" else 0) + (r.choice([-1, 1, 2]) if r.random() < 0.25 else 0)
            # mostly a value of its own for each
            vals = r.sample(vs, n) if 0 <= n <= len(vs) and r.random() < 0.7 else [r.choice(vs) for _ in range(max(0, n))]
        if r.random() < 0.08:
            vals = []
        f = r.choice(self.fac)
        sems = [i for i in self.of("sem") if self.w[i].parent is None]
        r.shuffle(sems)
        cs = [(i, r.randint(0, 2), r.choice([0] + vs), sems.pop() if sems and r.random() < 0.3 else 0) for i in a + b]
        self.w.fedge(f, self.name(), p, mode, a, b, r.randint(0, 2), r.randint(0, 2),
                     vals if mode in ("nodes", "two") else None, cs if mode == "tup" else ())

    def do_fano(self):
        if sum(e["op"] == "fano" for e in self.w.ev) < 2:
            i, f = self.w.fano(self.r.choice(["fano", "a", "x/y"]), self.r.randint(1, 2))
            if f:
                self.fac.append(f)

    def do_fval(self):
        p = self.pick("node", "edge") if self.r.random() < 0.8 else 0
        if not self.full():
            self.w.fval(self.r.choice(self.fac), self.name(), p,
                        [self.value() for _ in range(self.r.choice([0, 1, 2, 3, 4, 9]))] or self.r.choice([None, []]))

    SEMK = ["cognitiveentity", "kinematicgraph", "kinematiclink", "kinematicjoint", "cylindergeometry",
            "polyhedrongeometry", "ellipsoidgeometry", "material", "rigidtransformation", "inertiaelement",
            "Kinematic_Link", " MATERIAL ", "rigid_transformation"]

    def attrs(self):
        r = self.r
        return {r.choice(KEYS):
                r.choice(["x", "é", 1, 2.5, [1, 2, 3], [0.5], "", None, 0, [[1], "x"]]) for _ in range(r.randint(1, 3))}

    def do_fsem(self):
        p = self.pick("node", "node", "edge", "sem")
        if p and not self.full():
            self.w.fsem(self.r.choice(self.sem), self.r.choice(self.SEMK), self.name(), p, self.attrs(),
                        self.r.choice([None, None, [1, 2], [0.5]]))

    def do_fsembad(self):
        p = self.pick("node", "edge")
        if p:
            k = self.r.choice(["meshgeometry", "nonsense", "", "kinematiclink"])
            self.w.fsem(self.r.choice(self.sem), k, self.name(), p, {} if k == "kinematiclink" else {"name": "x"})

    def value(self):
        if self.r.random() < self.exotic:
            return EXO + self.r.randrange(len(EXOTIC))
        return self.r.randint(-5, 20)

    def do_vset(self):
        i = self.pick("val")
        if i:
            n = len(self.w[i].get_values())
            if self.r.random() < 0.2:
                lo, hi = self.r.randint(0, n + 1), self.r.randint(0, n + 1)
                self.mine.append(self.w.vslice(i, lo, hi, [self.value() for _ in range(self.r.randint(0, 3))], self.r.random() < 0.5))
                return
            self.w.vset(i, self.r.randint(-n - 1 if self.r.random() < 0.3 else 0, max(0, n)), self.value(), self.r.random() < 0.5)

    def do_vall(self):
        i = self.pick("val")
        if i:
            mine = self.w.vall(i, [self.value() for _ in range(self.r.randint(0, 4))])
            self.mine.append(mine)
            self.spoil(0.5)

    def spoil(self, p):
        """the caller changes a list or dictionary it has given away"""
        r = self.r
        if self.w.given is not None:
            self.mine.append(self.w.given)
            self.w.given = None
        if not self.mine or r.random() > p:
            return

        def f():
            m = r.choice(self.mine[-3:])
            if isinstance(m, dict):
                m[r.choice(["name", "mass", "t", "axis"])] = "spoilt"
                return
            m.append(99.0)
            m[0] = 77.0
        self.w.noop("caller changes its list", f)

    def do_aset(self):
        i = self.pick("sem")
        if i:
            self.w.aset(i, self.r.choice(KEYS), self.r.choice(["q", 3, [1.5, 2], "", None, 0, [], {"k": 1}, b"x", False]))

    def do_adel(self):
        i = self.pick("sem")
        if i:
            self.w.adel(i, self.r.choice(KEYS))

    def do_find(self):
        i = self.pick("node", "node", "edge", "rel", "sem")
        if not i:
            return
        toks = []
        cur = self.w[i]
        for _ in range(self.r.randint(1, 4)):
            k = self.w.children(cur)
            if k and self.r.random() < 0.85:
                cur = self.r.choice(k)
                toks.append(cur.id_name)
            else:
                toks.append(self.name())
        if any("/" in t for t in toks):
            return
        self.w.find(i, toks)

    def do_get(self):
        i = self.pick("node")
        if i:
            k = self.kids(i)
            below = [y for x in k for y in self.w.children(x)]
            k = below if below and self.r.random() < 0.3 else k
            self.w.get(i, (self.r.choice(k) if k and self.r.random() < 0.7 else self.r.choice(self.w.objs)).uuid)

    def do_setck(self):
        i = self.pick("node", "edge")
        if i:
            self.w.setck(i, self.r.randint(1, 2))

    def do_kids(self):
        i = self.pick("node", "node", "edge", "rel", "sem", "val")
        if i:
            n = len(self.w.objs)
            self.w.kids(i, [j for j in range(1, n + 1) if self.r.random() < 0.6])

    def do_views(self):
        i = self.pick("node", "edge", "edge")
        if i:
            self.w.views(i)

    def do_incid(self):
        i = self.pick("rel")
        if i:
            self.w.views(i)

    def do_vread(self):
        i = self.pick("val")
        if i:
            self.w.vread(i)

    # -- running ---------------------------------------------------------
    def run(self, n):
        r = self.r
        ks, ws = list(self.prof), list(self.prof.values())
        for _ in range(r.randint(2, 5)):
            self.w.new(r.choice(["node", "node", "edge"]), self.name(), self.uid(), 0, r.randint(1, 2))
        g = 0
        while len(self.w.ev) < n and g < 6 * n and not self.w.broken:
            g += 1
            getattr(self, "do_" + r.choices(ks, ws)[0])()
            if self.w.given is not None:
                self.spoil(0.6)
        return self.w.trace()
