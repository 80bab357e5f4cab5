"""Descriptions of cognitive entities, the syntax trees of their grammar, and histories that read them.

The parser the library's reader was generated for is not part of the repository, so its contexts are built here: one class per
rule of the grammar, with the accessors, labels and visitor calls that ANTLR generates for it."""
import contextlib
import importlib.util
import os
import shutil
import sys
import tempfile
import types

from lxml import etree

from cognitext import Text
from kin import KIN, KinDriver, KinWorld, MATS
from world import REPO, as_int

from rei.format.semantics.CognitiveEntity import CognitiveEntity
from rei.hypergraph.base_elements import HypergraphRelation

# rule: (methods that give one child or None, methods that give a list)
RULES = dict(
    rootnode=("entity", ""), entity=("graphnode_signature", "entity_subset_elem"),
    entity_subset_elem=("entity_edges entity_nodes common_subset_elem template_instantiation graphnode graphedge", ""),
    entity_edges=("joint", ""), entity_nodes=("ambient kinematic parametric", ""), parametric=("", "parameter"),
    parameter=("FLOAT INT", "ID"), graphnode_signature=("ID", ""), graphedge_signature=("ID", ""),
    kinematic=("graphnode_signature kinematicnode_body", ""),
    kinematicnode_body=("", "link joint kinematic geometrictemplate geometricoperation"),
    link=("graphnode_signature rigid_transformation linknode_body", ""),
    linknode_body=("inertia_body", "visual_node collision_node"), inertia_body=("FLOAT inertia_vector", ""),
    inertia_vector=("field_float_vector", ""), visual_node=("geometry_body ID material", ""), material=("ID", ""),
    collision_node=("geometry_body ID", ""), geometry_body=("geometries", ""),
    geometries=("cylinder_geometry polyhedron_geometry mesh_geometry ellipsoid_geometry ref_", ""),
    cylinder_geometry=("field_float_vector ID", ""), polyhedron_geometry=("field_float_vector ID", ""),
    ellipsoid_geometry=("field_float_vector ID", ""), mesh_geometry=("field_float_vector ID", ""),
    field_float_vector=("float_vector ref_", ""), float_vector=("", "value"), value=("ref_ FLOAT", ""), ref_=("ID", ""),
    joint=("graphedge_signature joint_body", ""), joint_body=("", "joint_relation"),
    joint_relation=("ref_ joint_type rigid_transformation axis", ""), joint_type=("", ""), axis=("float_vector", ""),
    rigid_transformation=("float_vector rotation", ""), rotation=("float_vector", ""),
    geometrictemplate=("graphedge_signature ref_ joint_relation", ""), geometricoperation=("geometricmirror", ""),
    geometricmirror=("graphedge_signature OUT_DIR", "ref_"),
    ambient=("graphnode_signature ambient_graph_body", ""), ambient_graph_body=("", "ambient_element"),
    ambient_element=("actuator sensor ambient ambience_edge kinematic port", ""),
    actuator=("ambient_element_signature", "parameters"), sensor=("ambient_element_signature sensor_type", "parameters"),
    ambient_element_signature=("ID", ""), sensor_type=("proprioceptive_sensor exteroceptive_sensor", ""),
    proprioceptive_sensor=("prop_sensor_type", ""), prop_sensor_type=("", ""),
    ambience_edge=("graphedge_signature", "ambience_edge_body"),
    ambience_edge_body=("", "communication_connections element_placement_relation"),
    element_placement_relation=("geom_relation", ""), geom_relation=("ref_ rigid_transformation", ""),
    parameters=("param_double param_int param_string param_double_vector", ""), param_double=("ID FLOAT", ""),
    param_int=("ID INT", ""), param_string=("ID STRING", ""), param_double_vector=("ID float_vector", ""),
    exteroceptive_sensor=("ext_sensor_type", ""), ext_sensor_type=("matrix_sensor", ""), matrix_sensor=("", ""),
    port=("port_signature", "parameters"), port_signature=("graphnode_signature communication_connection_msg STRING", ""),
    communication_connection_msg=("STRING", ""), communication_connections=("communication_type ref_ graphedge_relation_optype", ""),
    communication_type=("ambient_signal ambient_stream", ""), ambient_signal=("", ""), ambient_stream=("", ""),
    graphedge_relation_optype=("", ""),
    common_subset_elem=("parameters", ""), graphnode=("graphnode_expr", ""), graphnode_expr=("graphnode_signature graphnode_body", ""),
    graphnode_body=("", "subset_elem"), subset_elem=("graphnode graphedge common_subset_elem", ""))


class Tok:
    """a token, and the leaf of the tree that holds it"""

    def __init__(self, kind, text):
        self.kind, self.text, self.parentCtx = kind, text, None

    def __str__(self):
        return self.text

    def getText(self):
        return self.text

    def accept(self, visitor):
        return visitor.visitTerminal(self)


class Ctx:
    rule = ""

    def __init__(self, *children, **labels):
        self.children = [c for c in children if c is not None]
        self.parentCtx = None
        for c in self.children:
            c.parentCtx = self
        for k, v in labels.items():
            setattr(self, k, v)

    def getChildCount(self):
        return len(self.children)

    def getChild(self, i):
        return self.children[i]

    def getChildren(self):
        return iter(self.children)

    def getText(self):
        return "".join(c.getText() for c in self.children)

    def accept(self, visitor):
        return getattr(visitor, "visit" + self.rule.capitalize())(self)


def rule_class(rule, one, many):
    def is_(name):
        return lambda c: (c.rule if isinstance(c, Ctx) else c.kind) == name

    def single(name):
        return lambda self: next((c for c in self.children if is_(name)(c)), None)

    def several(name):
        def g(self, i=None):
            cs = [c for c in self.children if is_(name)(c)]
            return cs if i is None else (cs[i] if i < len(cs) else None)
        return g
    d = {n: single(n) for n in one.split()}
    d.update({n: several(n) for n in many.split()})
    d["rule"] = rule
    for lab in LABELS.get(rule, "").split():
        d[lab] = None
    return type(rule.capitalize() + "Context", (Ctx,), d)


LABELS = dict(parameter="name parameter_value", link="root_link pose", inertia_body="mass", inertia_vector="inertia_vector_",
              material="material_name", joint_relation="type_ direction", joint_type="value_", axis="axis_", rotation="rot_type",
              param_int="value_", port="parameters_", port_signature="topic_name msg",
              communication_connections="optype direction comm_type", graphedge_relation_optype="op",
              actuator="parameters_", sensor="parameters_", geom_relation="direction referenced_element_ transformation_")
C = {r: rule_class(r, *m) for r, m in RULES.items()}


class Source:
    """FileStream, CogniLangLexer and CommonTokenStream: only the file that is parsed matters"""

    def __init__(self, given, *a, **k):
        self.file = getattr(given, "file", given)


class ParserStub:
    trees = {}                                         # syntax tree of each file

    def __init__(self, stream, *a, **k):
        self.file = stream.file

    def rootnode(self):
        return self.trees[self.file]


for _r, _c in C.items():
    setattr(ParserStub, _r.capitalize() + "Context", _c)


class VisitorStub:
    last = None                                        # the last reader in use

    def visit(self, tree):
        VisitorStub.last = self
        return tree.accept(self)

    def visitChildren(self, node):
        res = self.defaultResult()
        for i in range(node.getChildCount()):
            if not self.shouldVisitNextChild(node, res):
                return res
            res = self.aggregateResult(res, node.getChild(i).accept(self))
        return res

    def visitTerminal(self, node):
        return self.defaultResult()

    visitErrorNode = visitTerminal

    def defaultResult(self):
        return None

    def aggregateResult(self, aggregate, res):
        return res

    def shouldVisitNextChild(self, node, res):
        return True


for _r in C:
    setattr(VisitorStub, "visit" + _r.capitalize(), lambda self, ctx: self.visitChildren(ctx))


def reader_class():
    """the library's reader, on top of the contexts above"""
    base = "rei.format.cognilang"
    try:
        __import__(base + ".CogniLangParser")
    except ImportError:
        for name, obj in (("CogniLangParser", ParserStub), ("CogniLangVisitor", VisitorStub), ("CogniLangLexer", Source)):
            m = types.ModuleType(base + "." + name)
            setattr(m, name, obj)
            sys.modules[base + "." + name] = m
        pk = types.ModuleType(base)
        pk.__path__ = []
        sys.modules[base] = pk
    from rei.format.mapping.cognilang_file_icon import CognilangParserFileIcon
    return CognilangParserFileIcon


def converter():
    """the library's program that converts a file to a simulator model"""
    reader_class()
    if "antlr4" not in sys.modules:
        m = types.ModuleType("antlr4")
        m.FileStream = m.CommonTokenStream = Source
        sys.modules["antlr4"] = m
    if "rei_converter" not in sys.modules:
        sp = importlib.util.spec_from_file_location("rei_converter", os.path.join(
            REPO, "framework_python", "apps", "simulation", "convert_cognilang_sdf.py"))
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        sys.modules["rei_converter"] = m
    return sys.modules["rei_converter"]


# ---- from a description to its syntax tree --------------------------------
def ID(x):
    return Tok("ID", x)


def T(x):
    return Tok("T", x)


class Tree:
    """syntax tree of a description; unit is what its numbers are multiplied with"""

    def __init__(self, unit):
        self.unit = unit

    def number(self, x):
        s = "%.6f" % (x / self.unit)
        return s.rstrip("0") + "0" if s.rstrip("0").endswith(".") else s.rstrip("0")

    def fl(self, x):
        return Tok("FLOAT", self.number(x))

    def ref(self, names):
        return C["ref_"](T("{"), ID("/".join(names)), T("}"))

    def vector(self, v):
        vs = [C["value"](self.ref([x["ref"]]) if x["ref"] else self.fl(x["x"])) for x in v]
        return C["float_vector"](T("["), *vs, T("]"))

    def sig(self, n):
        return C["graphnode_signature"](ID(n))

    def esig(self, n):
        return C["graphedge_signature"](ID(n), T(":"))

    def pose(self, p):
        if not p:
            return None
        p = p[0]
        rot = None
        if p["r"]:
            t = T(p["ty"]) if p["ty"] else None
            rot = C["rotation"](t, self.vector(p["r"]), rot_type=t)
        return C["rigid_transformation"](T("["), self.vector(p["t"]), rot, T("]"))

    def entity(self, d):
        its = []
        for x in d["items"]:
            k = x["k"]
            c = getattr(self, k)(x)
            w = {"graph": "entity_nodes", "ambient": "entity_nodes", "params": "entity_nodes", "joint": "entity_edges"}.get(k)
            its.append(C["entity_subset_elem"](C[w](c) if w else c))
        return C["rootnode"](C["entity"](T("entity"), self.sig(d["n"]), T("{"), *its, T("}")))

    def graph(self, x):
        its = [C["geometricoperation"](self.mirror(y)) if y["k"] == "mirror" else getattr(self, y["k"])(y) for y in x["items"]]
        return C["kinematic"](T("kinematic"), self.sig(x["n"]), C["kinematicnode_body"](T("{"), *its, T("}")))

    def params(self, x):
        ps = []
        for p in x["ps"]:
            v = self.fl(p["x"])
            if p.get("int") and float(v.text) == int(float(v.text)):
                v = Tok("INT", str(int(float(v.text))))
            n = ID(p["n"])
            ps.append(C["parameter"](n, T("="), v, name=n, parameter_value=v))
        return C["parametric"](T("parameters"), T("{"), *ps, T("}"))

    def link(self, x):
        pose = self.pose(x["pose"])
        root = T("root") if x["root"] else None
        body = None
        if x["mass"]:
            m = self.fl(x["mass"][0])
            iv = None
            if x.get("inertia"):
                fv = C["field_float_vector"](self.vector(x["inertia"]))
                iv = C["inertia_vector"](T("inertia"), fv, inertia_vector_=fv)
            body = C["linknode_body"](T("{"), C["inertia_body"](T("inertia"), T("{"), T("mass"), m, iv, T("}"), mass=m),
                                      *[self.body(b) for b in x["bodies"]], T("}"))
        return C["link"](root, T("link"), self.sig(x["n"]), pose, body, root_link=root, pose=pose)

    def body(self, b):
        g = b["geom"]
        if g["t"] == "ref":
            gs = C["geometries"](self.ref(g["ref"]))
        else:
            v = C["field_float_vector"](self.vector(g["v"]) if g["v"] else self.ref(g["ref"]))
            gs = C["geometries"](C[g["t"] + "_geometry"](T(g["t"]), ID(g["g"]) if g.get("g") else None, v))
        gb = C["geometry_body"](T("{"), gs, T("}"))
        n = ID(b["n"]) if b["n"] else None
        if not b["vis"]:
            return C["collision_node"](T("collision"), n, gb)
        mat = None
        if b["mat"]:
            m = ID(b["mat"][0])
            mat = C["material"](T("("), T("material"), m, T(")"), material_name=m)
        return C["visual_node"](T("visual"), n, mat, gb)

    def rel(self, r):
        v = T(r["t"])
        ty = C["joint_type"](v, value_=v)
        d = T(r["d"])
        ax = None
        if r["axis"]:
            fv = self.vector(r["axis"])
            ax = C["axis"](T("|"), fv, axis_=fv)
        return C["joint_relation"](ty, d, self.ref([r["ref"]]), self.pose(r["pose"]), ax, type_=ty, direction=d)

    def joint(self, x):
        return C["joint"](T("joint"), self.esig(x["n"]), C["joint_body"](*[self.rel(r) for r in x["rels"]]))

    def template(self, x):
        return C["geometrictemplate"](self.esig(x["n"]), self.ref([x["ref"]]), self.rel(x["rel"]))

    def mirror(self, x):
        return C["geometricmirror"](T("mirror"), self.esig(x["n"]), self.ref([x["ref"]]), Tok("OUT_DIR", "->"), self.ref([x["ref"]]))

    def node(self, x):
        return C["graphnode"](T("node"), C["graphnode_expr"](self.sig(x["n"])))

    def at(self, d, r):
        r, d = self.ref([r]), T(d)
        return C["element_placement_relation"](C["geom_relation"](T("at"), d, r, direction=d, referenced_element_=r))

    def comm(self, d, kind, r, op):
        d, k = T(d), C["communication_type"](C["ambient_" + kind](T(kind)))
        o = C["graphedge_relation_optype"](T(op), op=T(op)) if op else None
        return C["communication_connections"](o, T("comm"), d, k, self.ref([r]), direction=d, comm_type=k, optype=o)

    def sensor(self, t):
        if not t:
            return None
        if t in ("imu", "encoder", "force"):
            return C["sensor_type"](C["proprioceptive_sensor"](C["prop_sensor_type"](T(t))))
        return C["sensor_type"](C["exteroceptive_sensor"](C["ext_sensor_type"](T(t) if t == "gnss" else C["matrix_sensor"](T(t)))))

    def parameter(self, t, n, v):
        t_, n_, eq = T(t), ID(n), T("=")
        if t == "vec":
            return C["parameters"](C["param_double_vector"](t_, n_, eq, self.vector(v)))
        v_ = Tok(dict(double="FLOAT", int="INT", string="STRING")[t], v)
        return C["parameters"](C["param_" + t](t_, n_, eq, v_, **(dict(value_=v_) if t == "int" else {})))

    def ambient(self, x):
        its = []
        for y in x["items"]:
            if y["k"] == "graph":
                its.append(self.graph(y))
            elif y["k"] == "ambient":
                its.append(self.ambient(y))
            elif y["k"] == "ambience":
                its.append(C["ambience_edge"](T("ambience"), self.esig(y["n"]), *[
                    C["ambience_edge_body"](*[self.at(*q[1:]) if q[0] == "at" else self.comm(*q[1:]) for q in part]) for part in y["parts"]]))
            elif y["k"] == "port":
                t, m = Tok("STRING", y["topic"]), C["communication_connection_msg"](Tok("STRING", y["msg"]))
                its.append(C["port"](C["port_signature"](T("port"), self.sig(y["n"]), T(":"), t, T("("), m, T(")"), topic_name=t, msg=m),
                                     T("{"), T("}")))
            else:
                its.append(C[y["k"]](T(y["k"]), C["ambient_element_signature"](ID(y["n"])), self.sensor(y.get("type")), T("{"),
                                     *[self.parameter(*q) for q in y["par"]], T("}")))
        return C["ambient"](T("ambient"), self.sig(x["n"]),
                            C["ambient_graph_body"](T("{"), *[C["ambient_element"](i) for i in its], T("}")))


# ---- descriptions ----------------------------------------------------------
LINKS = ["base", "arm", "tire", "Link_1", "wheel_base", "b", "arm_2", "root_link", "hand", "world_2", "wor"]
GRAPHS = ["wheel", "basic_structure", "leg", "g_1", "arm", "torso"]
BODIES = ["viz", "coll", "shell", "viz_arm", "base", "v_2"]


class Describe:
    """random descriptions; every reference is to something described earlier"""

    def __init__(self, r, vmax, mmax, deep=2, wide=4):
        self.r, self.vmax, self.mmax, self.deep, self.wide = r, vmax, mmax, deep, wide
        self.pars = {}
        self.seen = []                                 # bodies with a name, as absolute paths
        self.no = 0

    def fresh(self, p):
        self.no += 1
        return "%s%d" % (p, self.no)

    def name(self, pool, used, p):
        n = self.r.choice(pool)
        if n in used or self.r.random() < 0.3:
            n = self.fresh(p)
        used.add(n)
        return n

    def num(self, lo, hi):
        if self.pars and self.r.random() < 0.1:
            n = self.r.choice(list(self.pars))
            if lo <= self.pars[n] <= hi:
                return dict(x=0, ref=n)
        return dict(x=self.r.randint(lo, hi), ref="")

    def pose(self, p=0.5):
        r = self.r
        if r.random() > p:
            return []
        ty = r.choice(["", "d", "r"])
        lim = 36000 if ty == "d" else 700
        return [dict(t=[self.num(-250, 250) for _ in range(3)], r=[self.num(-lim, lim) for _ in range(3)] if r.random() < 0.6 else [], ty=ty)]

    def entity(self, n):
        r = self.r
        used = {"world"}
        its = []
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.5:
                its.append(self.params())
            its.append(self.graph(self.name(GRAPHS, used, "g"), 1, [n]))
        if r.random() < 0.4:
            its.append(self.ambient(self.name(["amb", "surrounding"], used, "a"), 1, [n]))
        if r.random() < 0.15:
            its.append(dict(k="node", n=self.fresh("node")))
        gs = [x["n"] for x in its if x["k"] == "graph"]
        if len(gs) > 1 and r.random() < 0.3:
            its.append(self.joint(self.fresh("jt"), ["world"], gs))
        return dict(n=n, items=its)

    def params(self):
        ps = []
        for _ in range(self.r.randint(1, 3)):
            n = self.fresh("P")
            x = self.r.randint(1, self.vmax)
            self.pars[n] = x
            ps.append(dict(n=n, x=x, int=self.r.random() < 0.3))
        return dict(k="params", ps=ps)

    def graph(self, n, level, path):
        r = self.r
        path = path + [n]
        its, used, links, graphs = [], {n} if r.random() < 0.8 else set(), [], []
        for _ in range(r.randint(1, self.wide)):
            h = r.random()
            if h < 0.25 and level < self.deep:
                m = self.name(GRAPHS, used, "g")
                graphs.append(m)
                its.append(self.graph(m, level + 1, path))
            elif h < 0.85 or not links:
                m = self.name(LINKS, used, "k")
                links.append(m)
                its.append(self.link(m, path))
            else:
                its.append(self.joint(self.fresh("jt"), links + ["world"], graphs))
        for _ in range(r.choice([0, 1, 1, 2])):
            if len(links + graphs) > 1 or r.random() < 0.3:
                its.append(self.joint(self.fresh("jt"), links + ["world"], graphs))
        if r.random() < 0.08:
            its.append(dict(k="template", n=self.fresh("t"), ref=links[0] if links else "x", rel=self.rel("x")))
        if r.random() < 0.05:
            its.append(dict(k="mirror", n=self.fresh("t"), ref="x"))
        return dict(k="graph", n=n, items=its)

    def link(self, n, path):
        r = self.r
        x = dict(k="link", n=n, root=r.random() < 0.2, pose=self.pose(), mass=[], bodies=[])
        path = path + [n]
        if r.random() < 0.85:
            x["mass"] = [r.randint(0, self.mmax)]
            if r.random() < 0.1:
                x["inertia"] = [self.num(1, self.vmax) for _ in range(3)]
            used = set()
            for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
                vis = r.random() < 0.5
                b = dict(vis=vis, n="" if r.random() < 0.4 else self.name(BODIES, used, "v"), mat=[], geom=None)
                if vis and r.random() < 0.7:
                    b["mat"] = [r.choice(MATS)]
                refs = [q for q in self.seen if len(q) == len(path) + 1]
                if refs and r.random() < 0.4:
                    b["geom"] = dict(t="ref", v=[], ref=self.reference(path + [b["n"]], r.choice(refs)))
                else:
                    t = r.choice(["cylinder", "ellipsoid", "polyhedron"])
                    k = 2 if t == "cylinder" else r.choice([1, 3])
                    if k == 1 and self.pars and r.random() < 0.2:
                        b["geom"] = dict(t=t, v=[], ref=[r.choice(list(self.pars))])
                    else:
                        b["geom"] = dict(t=t, v=[self.num(1, self.vmax) for _ in range(k)], ref=[])
                if r.random() < 0.15:
                    b["geom"]["g"] = r.choice(BODIES)
                x["bodies"].append(b)
                if b["n"]:
                    self.seen.append(path + [b["n"]])
        return x

    def reference(self, here, there):
        """m names are relative to the place m steps up"""
        same = 0
        while same < len(here) - 1 and here[same] == there[same]:
            same += 1
        return there[self.r.choice([same, same, self.r.randint(0, same)]):]

    def rel(self, ref):
        r = self.r
        return dict(t=r.choice(["fix", "rev", "tr"]), d="->", ref=ref, pose=self.pose(), axis=[self.num(-100, 100) for _ in range(3)]
                    if r.random() < 0.5 else [])

    def joint(self, n, names, graphs=()):
        """a graph is only ever carried"""
        r = self.r
        first = r.choice(names)
        names = [x for x in names if x != first] + list(graphs)
        r.shuffle(names)
        rels = []
        for i, x in enumerate([first] + names[:r.choice([1, 1, 1, 2, 3, 0])]):
            y = self.rel(x)
            y["d"] = r.choice(["<-", "<-", "--"]) if not i else "->" if x in graphs else r.choice(["->", "->", "->", "--", "<-"])
            rels.append(y)
        if r.random() < 0.2:
            r.shuffle(rels)
        return dict(k="joint", n=n, rels=rels)

    def ambient(self, n, level, path):
        r = self.r
        its, used = [], set()
        for _ in range(r.randint(0, 3)):
            h = r.random()
            if h < 0.2 and level < 3:
                its.append(self.ambient(self.name(["amb", "zone"], used, "a"), level + 1, path + [n]))
            elif h < 0.4:
                its.append(self.graph(self.name(GRAPHS, used, "g"), 2, path + [n]))
            elif h < 0.5:
                its.append(dict(k="ambience", n=self.fresh("at"), parts=[
                    [r.choice([("at", "->", "x"), ("comm", "<-", "stream", "x", "union"), ("comm", "--", "signal", "x", "")])
                     for _ in range(r.randint(1, 2))] for _ in range(r.randint(1, 2))]))
            elif h < 0.6:
                its.append(dict(k="port", n=self.name(["out", "joint_cmd"], used, "p"), topic='"/gnss"', msg='"sensor_msgs/Joint"'))
            else:
                its.append(dict(k=r.choice(["sensor", "actuator"]), n=self.name(["imu", "motor"], used, "s"), par=[
                    r.choice([("double", "p", "1.5"), ("int", "width", "1080"), ("string", "format", '"RGB8"'), ("vec", "v", [self.num(1, 9)])])
                    for _ in range(r.choice([0, 0, 1, 3]))]))
                if its[-1]["k"] == "sensor":
                    its[-1]["type"] = r.choice(["imu", "encoder", "gnss", "visual", "laserarray"])
        return dict(k="ambient", n=n, items=its)


HIDDEN = {"par", "type", "parts", "topic", "msg", "g", "inertia", "int"}   # says nothing about the model


def strip(d):
    """what the specification gets to know"""
    if isinstance(d, dict):
        return {k: strip(v) for k, v in d.items() if k not in HIDDEN}
    return [strip(x) for x in d] if isinstance(d, list) else d


class CogniWorld(KinWorld):
    poses = frozenset()                                # weights that are poses: numbers and radians

    def project(self, x):
        r = super().project(x)
        if self.id(x) in self.poses and r["k"] == "val":
            v = self._get(lambda: [float(y) for y in x.get_values()], [])
            r["v"] = [as_int(y, self.unit) for y in v[:3]] + [round(y * 1e4 * self.unit) for y in v[3:]]
        return r

    def describe(self, d):
        """a new reader reads one description"""
        self.keys.update(["name", "mass", "translation", "rotation", "rotation_type", "values", "material_name", "joint_type", "axis"])
        icon = reader_class()("reader", self.clocks[0])
        tree = Tree(self.unit).entity(d)
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            out, _ = self.attempt(lambda: icon.visit(tree))
        return self.was_read(icon, d, out)

    def was_read(self, icon, d, out):
        root = None
        if out == "ok":
            out, root = self.attempt(lambda: icon.root_entity)
        extra = [root]
        self.discover(extra)
        extra += [x.weight for x in list(self.objs) if isinstance(x, HypergraphRelation) and x.weight is not None and not self.id(x.weight) > 0]
        self.discover(extra)
        self.poses |= {self.id(x) for x in extra[1:]}
        self.emit("read", dict(d=strip(d), root=self.id(root) if root is not None else 0), out, [], extra)
        return self.id(root) if root is not None else 0


    def convert(self, d, model, stale=False):
        """the program converts a file that says d; model: what can be exported; stale: there is an earlier result"""
        self.keys.update(["name", "mass", "translation", "rotation", "rotation_type", "values", "material_name", "joint_type", "axis"])
        app = converter()
        app.LocalClock = lambda: self.clocks[0]        # timestamps as everywhere else
        tmp = tempfile.mkdtemp(prefix="rei_convert_")
        argv = sys.argv
        try:
            src, dst = os.path.join(tmp, "in.cogni"), os.path.join(tmp, "out")
            os.mkdir(dst)
            open(src, "w").close()
            for k in (".sdf", ".load.sh") if stale else ():
                with open(os.path.join(dst, d["n"] + k), "w") as f:
                    f.write("<sdf>earlier result</sdf>\n" * 999)
            ParserStub.trees, VisitorStub.last = {src: Tree(self.unit).entity(d)}, None
            sys.argv = ["convert", "--input", src, "--output", dst]
            with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
                out, _ = self.attempt(app.main)
            sys.argv = argv
            icon = VisitorStub.last
            e = self.was_read(icon, d, "ok" if icon is not None else "exc")
            if e <= 0 or not model(e):
                return e
            els = self.exported(e)
            a = dict(calls=[dict(els=els, pre="")], models=[], links=[], joints=[], whole=True, odd=0, u=int(self.unit))
            if out == "ok":
                try:
                    x = etree.parse(os.path.join(dst, d["n"] + ".sdf")).getroot()
                    self.read(types.SimpleNamespace(root_xml=x, _models=0, _seen={}), a)
                    with open(os.path.join(dst, d["n"] + ".load.sh")) as f:
                        say = f.read().split()
                    a["odd"] += d["n"] not in say or d["n"] + ".sdf" not in say or len(os.listdir(dst)) != 2
                except Exception as ex:                # noqa: BLE001
                    self.notes.append("convert: %r" % ex)
                    out = "unreadable"
            self.emit("sdf", a, out, [])
            return e
        finally:
            sys.argv = argv
            ParserStub.trees = {}
            shutil.rmtree(tmp, ignore_errors=True)


class CogniDriver(KinDriver):
    """histories that read descriptions, change and export what was read"""

    def __init__(self, name, seed, prof, deep=2, wide=4, **k):
        super().__init__(name, seed, prof, **k)
        self.w.__class__ = CogniWorld
        self.shape_of = dict(deep=deep, wide=wide)

    def start(self):
        self.world = self.w.fnode(self.fac[0], "world")
        self.do_read()

    def do_read(self):
        if len(self.ents) > 2 or self.full():
            return
        d = Describe(self.r, self.vmax, self.mmax, **self.shape_of)
        e = self.w.describe(d.entity(d.fresh("ent") if self.ents else self.r.choice(["simplebot", "ent", "r"])))
        if e > 0:
            self.ents.append(e)

    def do_convert(self):
        if self.full():
            return
        d = Describe(self.r, self.vmax, self.mmax, **self.shape_of)
        self.convert(d.entity(self.r.choice([d.fresh("ent"), "Robot", "R_2", "simplebot", "x"])))

    def convert(self, d):
        self.w.exported = lambda e: self.elements(e) + [self.w.id(s) for s in self.sem(self.w[e], CognitiveEntity)]
        self.w.convert(d, self.good, self.r.random() < 0.3)

    def do_kentity(self):
        pass

    def run(self, n):
        for k in list(self.prof):                      # until something has been read there is nothing to change
            setattr(self, "do_" + k, self.after(getattr(self, "do_" + k), k))
        return super().run(n)

    def after(self, f, k):
        return lambda *a: f(*a) if k in ("read", "convert") or self.graphs() else None


class ExampleDriver(CogniDriver):
    """the descriptions that come with the library: read, converted, exported as others"""
    at = os.path.join(os.path.dirname(os.path.abspath(__file__)), "examples")

    def __init__(self, name, seed, prof, **k):
        super().__init__(name, seed, prof, **k)
        self.w.unit = 200.0
        files = sorted(os.listdir(self.at))
        self.texts = [open(os.path.join(self.at, files[(seed + i) % len(files)])).read() for i in range(2)]
        self.n = 0

    def describe(self):
        self.n += 1
        return Text(self.texts[self.n % len(self.texts)], self.w.unit).entity()

    def do_read(self):
        if len(self.ents) > 1 or self.full():
            return
        e = self.w.describe(self.describe())
        if e > 0:
            self.ents.append(e)

    def do_convert(self):
        if not self.full():
            self.convert(self.describe())


COGNI = dict(KIN, read=3, sdf=5, kgraph=0.5)
