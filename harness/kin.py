"""Histories of kinematic models and their export."""
from drive2 import ObsDriver
from observe import Obs
from world import as_int, kind, run_async

from rei.format.semantics.CognitiveEntity import (CognitiveEntity, KinematicGraphDefinition, KinematicJoint, KinematicLink)

POOL = ["base", "arm", "tire", "Link_1", "l.2", "é", "b", "arm_2", "x y"]
MATS = ["red", "white", "wood", "dark_blue", "black"]


def clip(x):
    """within TLC's integers"""
    return max(-2 ** 31 + 1, min(2 ** 31 - 1, round(x)))


class KinWorld(Obs):
    """The export of the library, as the specification talks about it."""

    def icon(self):
        from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon
        c = CognilangSdfIcon(self.clocks[0])
        c._models, c._seen, c._calls, c._whole = 0, {}, [], True
        return c

    def sdf(self, icon, els, pre, whole):
        icon._calls.append(dict(els=list(els), pre=pre))
        icon._whole = icon._whole and whole
        objs = [self[i] for i in els]
        out, _ = self.attempt(lambda: run_async(icon.encode(objs, pre) if pre else icon.encode(objs)))
        a = dict(calls=list(icon._calls), models=[], links=[], joints=[], whole=icon._whole, odd=0, u=int(self.unit))
        if out == "ok":
            try:
                self.read(icon, a)
            except Exception as ex:                    # noqa: BLE001
                self.notes.append("sdf: %r" % ex)
                out = "unreadable"
        if len(icon.root_xml) or out != "ok":
            icon._calls, icon._whole = [], True
            self.emit("sdf", a, out, [])
        elif icon._calls:                              # nothing shows before there is an entity
            if a["links"] or a["joints"]:
                self.emit("sdf", dict(a, odd=99), "ok", [])
            else:
                self.emit("noop", dict(w="export without an entity"), "ok", [])
        return out

    def read(self, icon, a):
        odd = 0
        ms = list(icon.root_xml)
        a["models"] = [m.get("name") for m in ms[icon._models:]]
        icon._models = len(ms)
        for i, m in enumerate(ms):
            k = icon._seen.get(i, 0)
            its = list(m)
            if i != len(ms) - 1 and len(its) != k:
                odd += 1                               # something went into an earlier model
            for x in its[k:]:
                if x.tag == "link":
                    r, o = self.link(x)
                    a["links"].append(r)
                elif x.tag == "joint":
                    r, o = self.joint(x)
                    a["joints"].append(r)
                else:
                    o = 1
                odd += o
            icon._seen[i] = len(its)
        a["odd"] = odd

    def vec(self, t):
        return [as_int(x, self.unit) for x in t.split()]

    def pose(self, p):
        v = [float(x) for x in p.text.split()]
        return [as_int(x, self.unit) for x in v[:3]] + [round(x * 1e4 * self.unit) for x in v[3:]], p.get("relative_to") or ""

    def body(self, x, mat):
        gs, m, odd = [], "", 0
        for y in x:
            if y.tag == "geometry":
                for g in y:
                    if g.tag in ("cylinder", "sphere", "ellipsoid", "box"):
                        order = {"cylinder": ["radius", "length"], "sphere": ["radius"], "ellipsoid": ["radii"], "box": ["size"]}[g.tag]
                        odd += sorted(z.tag for z in g) != sorted(order)
                        gs.append(dict(t=g.tag, v=[n for o in order for n in self.vec(g.findtext(o) or "")]))
                    else:
                        odd += 1
                odd += len(y) != 1
            elif y.tag == "material" and mat:
                n = y.findtext("script/name") or ""
                m = n[7:].lower() if n.startswith("Gazebo/") and n[7:] == n[7:].lower().capitalize() else "?" + n
            else:
                odd += 1
        return dict(n=x.get("name"), m=m, g=gs), odd

    def link(self, x):
        r = dict(n=x.get("name"), pose=[], rel="", vis=[], col=[], inert=[])
        odd = 0
        for y in x:
            if y.tag == "pose":
                odd += r["pose"] != []
                r["pose"], r["rel"] = self.pose(y)
            elif y.tag in ("visual", "collision"):
                b, o = self.body(y, y.tag == "visual")
                odd += o
                r["vis" if y.tag == "visual" else "col"].append(b)
            elif y.tag == "inertial":
                i = y.find("inertia")
                ms = [float(i.findtext(k)) for k in ("ixx", "iyy", "izz", "ixy", "ixz", "iyz")]
                r["inert"].append(dict(m=self.vec(y.findtext("mass")), i=[clip(x * 60 * self.unit ** 3) for x in ms],
                                       h=[clip(x * 100) for x in ms]))
                odd += len(y) != 2 or len(i) != 6
            else:
                odd += 1
        return r, odd

    def joint(self, x):
        r = dict(n=x.get("name"), t=x.get("type"), par="", ch="", ax=[], pose=[], rel="")
        odd = 0
        for y in x:
            if y.tag == "parent":
                r["par"] = y.text
            elif y.tag == "child":
                r["ch"] = y.text
            elif y.tag == "axis":
                r["ax"] = self.vec(y.findtext("xyz"))
                odd += len(y) != 1
            elif y.tag == "pose":
                r["pose"], r["rel"] = self.pose(y)
            else:
                odd += 1
        return r, odd


class Model:
    """The kinematic entities of a world; w: the world, r: choices, ents: nodes of entities, icons: exporters in use."""

    def sub(self, i, cls, *ks):
        return [self.w.id(x) for x in self.w.children(self.w[i]) if kind(x) in ks
                and (cls is None or self.sem(x, cls))]

    def sem(self, x, cls):
        return [y for y in self.w.children(x) if isinstance(y, cls)]

    def graphs(self, top=None):
        """graph nodes: of an entity or graph, or all"""
        if top is not None:
            return self.sub(top, KinematicGraphDefinition, "node")
        out, todo = [], list(self.ents)
        while todo:
            g = self.graphs(todo.pop(0))
            out += g
            todo += g
        return out

    def links(self, g):
        return self.sub(g, KinematicLink, "node")

    def joints(self, g):
        return [(e, r, j) for e in self.sub(g, None, "edge") for r in self.w[e].sub_relations for j in self.sem(r, KinematicJoint)]

    def roots(self, g):
        carried = {id(r.endpoint) for e, _, _ in self.joints(g) for r in self.w[e].get_outgoing_relations()}
        return [k for k in self.links(g) if id(self.w[k]) not in carried]

    def good(self, e):
        """every graph that is referred to has a link nothing carries"""
        todo = [e] + self.graphs(e)
        n = 0
        while todo and n < 60:
            n += 1
            g = todo.pop()
            for _, r, _ in self.joints(g):
                if r.endpoint is not None and self.sem(r.endpoint, KinematicGraphDefinition):
                    x = self.w.id(r.endpoint)
                    if not self.roots(x):
                        return False
                    todo.append(x)
        return n < 60

    def elements(self, e):
        """what an export of an entity takes: its joints, and links and joints of its own graphs"""
        els = [self.w.id(j) for _, _, j in self.joints(e)]
        for g in self.graphs(e):
            els += [self.w.id(s) for k in self.links(g) for s in self.sem(self.w[k], KinematicLink)]
            els += [self.w.id(j) for _, _, j in self.joints(g)]
        return els

    def export(self, e):
        """export an entity: in any order, in pieces, a part of it, with a prefix, again"""
        r, w = self.r, self.w
        els = self.elements(e)
        whole = True
        pre = ""
        if r.random() < 0.1 and els:
            els = r.sample(els, r.randint(1, len(els)))
            whole = False
        if r.random() < 0.15:
            pre = "robot"
        if r.random() < 0.5:
            r.shuffle(els)
        ent = [w.id(s) for s in self.sem(w[e], CognitiveEntity)]
        icons = [i for i in self.icons if not (i._calls)]
        icon = r.choice(icons) if icons and r.random() < 0.2 else w.icon()
        if r.random() < 0.15:                          # in pieces, the entity last
            h = r.randint(0, len(els))
            a, b = els[:h], els[h:]
            js = [i for i in els if isinstance(w[i], KinematicJoint)]
            a, b = [i for i in els if i not in js], js
            if icon in self.icons:
                icon = w.icon()
            w.sdf(icon, a, pre, whole)
            w.sdf(icon, b, pre, whole)
            w.sdf(icon, ent, pre, whole)
        else:
            x = els + ent
            if r.random() < 0.5:
                r.shuffle(x)
            w.sdf(icon, x, pre, whole)
        if icon not in self.icons:
            self.icons.append(icon)


class KinDriver(Model, ObsDriver):
    def __init__(self, name, seed, prof, refs=True, fan=0, bodies=(0, 1, 1, 2), parts=(1, 1, 1, 1, 0, 2), **k):
        k.setdefault("maxel", 130)
        super().__init__(name, seed, prof, **k)
        self.w.__class__ = KinWorld
        self.sem_facs = self.__dict__.pop("sem")        # sem is a method here
        self.ents, self.world = [], 0
        self.icons, self.fan, self.nb, self.parts = [], fan, bodies, parts
        # small solids of any mass or big ones of little mass, so that moments of inertia stay in TLC's integers
        self.vmax, self.mmax = self.r.choice([(100, 1000), (100, 1000), (2500, 10)])
        self.w.unit = self.r.choice([100.0, 100.0, 10000.0, 1000000.0, 1.0])
        self.refs = refs
        self.no = 0

    def fresh(self, p):
        self.no += 1
        return p if self.r.random() < 0.3 else "%s%d" % (p, self.no)

    def num(self, lo, hi):
        return round(self.r.randint(lo, hi) / self.w.unit, 6)

    def rigid(self, i):
        r = self.r
        t = [self.num(-250, 250) if r.random() < 0.7 else 0.0 for _ in range(3)]
        typ = r.choice(["deg", "rad", "rad"])
        rot = [(self.num(-36000, 36000) if typ == "deg" else self.num(-700, 700)) if r.random() < 0.6 else 0.0 for _ in range(3)]
        self.w.fsem(self.sem_f(), "rigidtransformation", self.w[i].id_name + "_transformation", i,
                    dict(translation=t, rotation=rot, rotation_type=typ))

    def axis(self):
        """any axis, often one that is special: along a coordinate, cancelling out, zero, equal components"""
        r, u = self.r, self.num(1, 100)
        v = r.choice([[u, 0.0, 0.0], [u, -u, 0.0], [-u, -u, -u], [0.0, 0.0, -u], [0.0] * 3, [u, u, u], [2 * u, -u, -u]])
        r.shuffle(v)
        return [round(x, 6) for x in v] if r.random() < 0.5 else [self.num(-100, 100) for _ in range(3)]

    def sem_f(self):
        return self.r.choice(self.sem_facs)

    # -- operations ------------------------------------------------------
    def start(self):
        self.world = self.w.fnode(self.fac[0], "world")
        self.do_kentity()

    def do_kentity(self):
        if len(self.ents) > 2:
            return
        n = self.fresh("ent")
        e = self.w.fnode(self.r.choice(self.fac), n)
        if self.w.ev[-1]["out"] != "ok":
            return
        self.w.fsem(self.sem_f(), "cognitiveentity", n, e, {"name": n})
        self.ents.append(e)
        self.do_kgraph(e)

    def do_kgraph(self, top=None):
        r = self.r
        top = top or r.choice(self.ents + self.graphs())
        if self.full():
            return
        n = self.fresh("g")
        if any(x.id_name == n for x in self.w.children(self.w[top])):
            return
        g = self.w.fnode(r.choice(self.fac), n, top)
        if not g or self.w.ev[-1]["out"] != "ok":
            return
        self.w.fsem(self.sem_f(), "kinematicgraph", n, g, {"name": n})
        for _ in range(r.choice([1, 2, 2, 3]) + r.choice([0, self.fan])):
            self.do_klink(g)
        for _ in range(r.choice([0, 1, 2])):
            self.do_kjoint(g)
        if top not in self.ents and self.fan and r.random() < 0.7:
            self.do_kjoint(top, 1)

    def g(self):
        return self.r.choice(self.graphs())

    def do_klink(self, g=None):
        g = g or self.g()
        if self.full():
            return
        r = self.r
        n = r.choice(POOL) if r.random() < 0.7 else self.fresh("k")
        if any(x.id_name == n for x in self.w.children(self.w[g])):
            return
        k = self.w.fnode(r.choice(self.fac), n, g)
        if not k or self.w.ev[-1]["out"] != "ok":
            return
        s = self.w.fsem(self.sem_f(), "kinematiclink", n, k, {"name": n})
        if r.random() < 0.5:
            self.rigid(s)
        if r.random() < 0.6:
            self.do_kmass(k)
        for _ in range(r.choice(self.nb)):
            self.do_kbody(k)

    def k(self):
        ks = [k for g in self.graphs() for k in self.links(g)]
        return self.r.choice(ks) if ks else 0

    def do_kmass(self, k=None):
        k = k or self.k()
        if k and not any(type(x).__name__ == "InertiaElement" for x in self.w.children(self.w[k])):
            self.w.fsem(self.sem_f(), "inertiaelement", "inertia_" + self.w[k].qualified_name.replace("/", "_"), k,
                        {"mass": self.num(0, self.mmax)})

    def shape(self, i, n):
        r = self.r
        c = r.choice(["cylindergeometry", "ellipsoidgeometry", "polyhedrongeometry"])
        k = 2 if c[0] == "c" else r.choice([1, 3])
        self.w.fsem(self.sem_f(), c, n, i, {"name": n}, [self.num(1, self.vmax) for _ in range(k)])

    def do_kbody(self, k=None):
        k = k or self.k()
        if not k or self.full():
            return
        r = self.r
        n = self.fresh(r.choice(["viz", "coll"]))
        if any(x.id_name == n for x in self.w.children(self.w[k])):
            return
        b = self.w.fnode(r.choice(self.fac), n, k)
        if not b or self.w.ev[-1]["out"] != "ok":
            return
        if r.random() < 0.5:
            self.w.fsem(self.sem_f(), "material", "material_" + n, b, {"name": n, "material_name": r.choice(MATS)})
        for i in range(r.choice(self.parts) if not self.refs else 1):
            gn = "geom_" + n + "_" * i
            g = self.w.fnode(r.choice(self.fac), gn, b)
            if not g:
                continue
            if r.random() < 0.7:
                self.shape(g, gn)
            else:
                self.refer(g, k, b)

    def bodies(self, exc=0):
        return [b for g in self.graphs() for k in self.links(g) for b in self.sub(k, None, "node") if b != exc]

    def refer(self, g, k, b):
        bs = self.bodies(b)
        gr = self.w.id(self.w[k].parent)
        if bs and gr > 0:
            x = self.r.choice(bs)
            self.no += 1
            self.w.fedge(self.r.choice(self.fac), "ref_%d" % self.no, gr, "tup",
                         cs=[(x, 1, 0, 0), (g, 0, 0, 0)][::self.r.choice([1, -1])])

    def do_kjoint(self, g=None, refer=0.4):
        g = g or self.g()
        r = self.r
        ls = self.links(g)
        subs = [x for x in self.graphs(g) if self.roots(x)] if self.refs else []
        if not ls or self.full():
            return
        self.no += 1
        en = "j%d" % self.no
        cs = []

        def rel(x, d):
            s = self.w.fsem(self.sem_f(), "kinematicjoint", en + "." + self.w[x].id_name, g, {"joint_type": r.choice(["fix", "rev", "tr"])})
            if not s or self.w.ev[-1]["out"] != "ok":
                return
            if r.random() < 0.5:
                self.w.aset(s, "axis", self.axis())
            if r.random() < 0.6:
                self.rigid(s)
            cs.append((x, d, 0, s))
        h = r.random()
        if subs and h < refer:
            # one link and a graph, or two graphs that are referred to
            p = r.choice(ls + ([self.world] if r.random() < 0.3 else []))
            rel(p, 0)
            for x in r.sample(subs, min(len(subs), r.choice([1, 1, 2]))):
                rel(x, 1)
        else:
            ls = list(ls)
            r.shuffle(ls)
            ls = ls[:r.choice([2, 2, 2, 3, 3, 4, 1]) + r.choice([0, self.fan])]
            top = self.w[g].parent
            if r.random() < 0.25:
                ls = [self.world] + ls
                rel(self.world, 0)
                ls = ls[1:]
            for i, x in enumerate(ls):
                rel(x, r.choice([0, 1, 1, 2]) if i else r.choice([0, 0, 0, 1, 2]))
        if cs:
            if r.random() < 0.3:
                r.shuffle(cs)
            self.w.fedge(r.choice(self.fac), en, g, "tup", cs=cs)

    def do_kplain(self):
        """an edge between links that is no joint"""
        g = self.g()
        ls = self.links(g)
        if len(ls) > 1 and not self.full():
            self.no += 1
            a, b = self.r.sample(ls, 2)
            self.w.fedge(self.r.choice(self.fac), "p%d" % self.no, g, "dir", [a], [b])

    def do_kother(self):
        """elements that have nothing to do with the kinematics"""
        p = self.r.choice(self.ents + self.graphs() + self.links(self.g()))
        if not self.full():
            self.no += 1
            if self.r.random() < 0.5:
                self.w.fval(self.r.choice(self.fac), "o%d" % self.no, p, [1])
            elif p in self.ents:
                self.w.fnode(self.r.choice(self.fac), "o%d" % self.no, p)

    def do_kset(self):
        """change what an element says"""
        c = []
        for i in self.of("sem"):
            y = type(self.w[i]).__name__
            c += [(i, y)] if y in ("InertiaElement", "RigidTransformation", "KinematicJoint", "VisualMaterial", "CylinderGeometry") else []
        if not c:
            return
        i, y = self.r.choice(c)
        r = self.r
        if y == "InertiaElement":
            self.w.aset(i, "mass", self.num(0, self.mmax))
        elif y == "RigidTransformation":
            self.w.aset(i, "translation", [self.num(-99, 99) for _ in range(3)])
        elif y == "KinematicJoint":
            if r.random() < 0.5:
                self.w.aset(i, "joint_type", r.choice(["fix", "rev", "tr"]))
            else:
                self.w.aset(i, "axis", [self.num(-100, 100) for _ in range(3)])
        elif y == "VisualMaterial":
            self.w.aset(i, "material_name", r.choice(MATS))
        else:
            self.w.aset(i, "values", [self.num(1, self.vmax) for _ in range(2)])

    def do_krm(self):
        """a joint, a body without references, a mass or a pose goes"""
        r = self.r
        h = r.random()
        g = self.g()
        if h < 0.4:
            es = sorted({e for e, _, _ in self.joints(g)})
            if es:
                e = r.choice(es)
                for x in list(self.w[e].sub_relations):
                    self.w.disc(self.w.id(x.endpoint), self.w.id(x))
                self.w.rm(g, "", self.w[e].uuid)
        elif h < 0.6:
            k = self.k()
            bs = [b for b in (self.sub(k, None, "node") if k else []) if not list(self.w[b].sub_ports)
                  and not any(list(x.sub_ports) for x in self.w[b].sub_nodes)]
            if bs:
                self.w.rm(k, "", self.w[r.choice(bs)].uuid)
        else:
            c = [x for x in self.w.objs if type(x).__name__ in ("InertiaElement", "RigidTransformation") and x.parent is not None]
            if c:
                x = r.choice(c)
                self.w.rm(self.w.id(x.parent), "", x.uuid)

    def do_sdf(self):
        e = self.r.choice(self.ents)
        if self.good(e):
            self.export(e)

    def run(self, n):
        r = self.r
        self.start()
        ks, ws = list(self.prof), list(self.prof.values())
        g = 0
        while len(self.w.ev) < n and g < 6 * n and not self.w.broken:
            g += 1
            getattr(self, "do_" + r.choices(ks, ws)[0])()
        return self.w.trace()


KIN = dict(kentity=1, kgraph=2, klink=3, kbody=3, kjoint=4, kplain=1, kother=1, kset=3, krm=2, kmass=1, sdf=6, tick=1)
