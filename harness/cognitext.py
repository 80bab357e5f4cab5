"""Reads the text of a cognitive description (CogniLang.g4) into the record the syntax trees are made of (cogni.Tree).

Numbers are kept times `unit`. Only the forms that the records have are understood; anything else is an error."""
import re

TOKEN = re.compile(r'\s+|//[^\n]*\n|/\*.*?\*/|(->|<-|--|[-]?[0-9]+(?:\.[0-9]+)?|[a-zA-Z_][a-zA-Z_/0-9]*|"[^"]*"|[\[\]{}():=,|@])', re.S)


class Text:
    def __init__(self, text, unit):
        self.toks, i = [], 0
        while i < len(text):
            m = TOKEN.match(text, i)
            if not m:
                raise ValueError("not a token: %r" % text[i:i + 20])
            if m.group(1):
                self.toks.append(m.group(1))
            i = m.end()
        self.i, self.unit = 0, unit

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ""

    def next(self, *want):
        t = self.peek()
        if want and t not in want:
            raise ValueError("%r where %r is due" % (t, want))
        self.i += 1
        return t

    def opt(self, t):
        if self.peek() == t:
            self.i += 1
            return True
        return False

    def number(self):
        x = float(self.next()) * self.unit
        if abs(x - round(x)) > 1e-6:
            raise ValueError("%r is not a multiple of the unit" % x)
        return int(round(x))

    def ref(self):
        self.next("{")
        n = self.next()
        self.next("}")
        return n

    def vector(self):
        self.next("[")
        v = []
        while not self.opt("]"):
            v.append(dict(x=0, ref=self.ref()) if self.peek() == "{" else dict(x=self.number(), ref=""))
            self.opt(",")
        return v

    def pose(self):
        self.next("[")
        t = self.vector()
        self.opt(",")
        ty = self.next() if self.peek() in ("d", "r") else ""
        r = self.vector() if self.peek() == "[" else []
        self.next("]")
        return [dict(t=t, r=r, ty=ty)]

    def entity(self):
        self.next("entity")
        n = self.next()
        return dict(n=n, items=self.items(dict(parameters=self.params, kinematic=self.graph, ambient=self.ambient, joint=self.joint)))

    def items(self, of):
        self.next("{")
        its = []
        while not self.opt("}"):
            k = self.next(*of)
            x = of[k]()
            if x is not None:
                its.append(x)
        return its

    def params(self):
        self.next("{")
        ps = []
        while not self.opt("}"):
            n = self.next()
            self.next("=")
            ps.append(dict(n=n, x=self.number()))
        return dict(k="params", ps=ps)

    def graph(self):
        n = self.next()
        return dict(k="graph", n=n, items=self.items(dict(kinematic=self.graph, joint=self.joint, link=self.link, root=self.root)))

    def root(self):
        self.next("link")
        return dict(self.link(), root=True)

    def link(self):
        x = dict(k="link", n=self.next(), root=False, pose=self.pose() if self.opt("@") else [], mass=[], bodies=[])
        if self.opt("{"):
            for t in ("inertia", "{", "mass"):
                self.next(t)
            x["mass"] = [self.number()]
            if self.opt("inertia"):
                x["inertia"] = self.vector()
            self.next("}")
            while not self.opt("}"):
                x["bodies"].append(self.body(self.next("visual", "collision") == "visual"))
        return x

    def body(self, vis):
        b = dict(vis=vis, n="" if self.peek() in "({" else self.next(), mat=[], geom=None)
        if vis and self.opt("("):
            self.next("material")
            b["mat"] = [self.next()]
            self.next(")")
        self.next("{")
        if self.peek() == "{":
            b["geom"] = dict(t="ref", v=[], ref=self.ref().split("/"))
        else:
            t = self.next("cylinder", "polyhedron", "ellipsoid")
            g = "" if self.peek() in "[{" else self.next()
            b["geom"] = dict(t=t, v=[], ref=[self.ref()], g=g) if self.peek() == "{" else dict(t=t, v=self.vector(), ref=[], g=g)
        self.next("}")
        return b

    def joint(self):
        x = dict(k="joint", n=self.next(), rels=[])
        self.next(":")
        while self.peek() in ("fix", "rev", "tr"):
            y = dict(t=self.next(), d=self.next("->", "<-", "--"), ref=self.ref(), pose=[], axis=[])
            if self.peek() == "[":
                y["pose"] = self.pose()
            if self.opt("|"):
                y["axis"] = self.vector()
            x["rels"].append(y)
        return x

    def ambient(self):
        n = self.next()
        return dict(k="ambient", n=n, items=self.items(dict(actuator=lambda: self.device("actuator"), sensor=lambda: self.device("sensor"),
                                                            port=self.port, ambience=self.ambience, ambient=self.ambient, kinematic=self.graph)))

    def device(self, k):
        x = dict(k=k, n=self.next(), par=[])
        if k == "sensor":
            x["type"] = self.next()
        self.next("{")
        while not self.opt("}"):
            t = self.next("double", "vec", "int", "string")
            m = self.next()
            self.next("=")
            x["par"].append((t, m, self.vector() if t == "vec" else self.next()))
        return x

    def port(self):
        n = self.next()
        self.next(":")
        x = dict(k="port", n=n, topic=self.next())
        self.next("(")
        x["msg"] = self.next()
        for t in (")", "{", "}"):
            self.next(t)
        return x

    def ambience(self):
        x = dict(k="ambience", n=self.next(), parts=[])
        self.next(":")
        while True:
            part = []
            while self.peek() in ("at", "comm") or self.peek(1) == "comm":
                if self.opt("at"):
                    part.append(("at", self.next("->", "<-", "--"), self.ref()))
                else:
                    op = "" if self.peek() == "comm" else self.next("pairwise", "single", "full", "union")
                    self.next("comm")
                    part.append(("comm", self.next("->", "<-", "--"), self.next("signal", "stream"), self.ref(), op))
            x["parts"].append(part)
            if not self.opt(","):
                return x
