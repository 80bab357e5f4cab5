"""Drives the real rei_hypergraph code and records what it does.

A World owns the elements a history creates.  Every call goes through
World.call(), which performs it on the real objects, classifies the outcome,
and logs an event: operation, arguments, outcome, result, and the projected
state of every element that changed.  The projection uses the public API only.
"""
import asyncio
import os
import signal
import sys
import warnings

REPO = os.environ.get("REI_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "framework_python"))
warnings.simplefilter("ignore")
sys.setrecursionlimit(1000)          # the interpreter's default: size must not matter

from rei.foundations.clock import MetaClock                                      # noqa: E402
from rei.foundations.common_errors import (ErrorDuplicateElement, ErrorInvalidQuery,  # noqa: E402
                                           ErrorRecursiveHierarchy)
from rei.factories.abstract_factory import ErrorInsufficientValues                # noqa: E402
from rei.factories.foundation_factory import HypergraphFactory                    # noqa: E402
from rei.format.semantics import CognitiveEntity as CE                            # noqa: E402
from rei.format.semantics.cognitive_entity_semantic_factory import (             # noqa: E402
    CognitiveEntitySemanticFactory, InvalidSemanticType)
from rei.foundations.conceptual_item import ConceptualItem                        # noqa: E402
from rei.hypergraph.base_elements import (HypergraphEdge, HypergraphNode,        # noqa: E402
                                          HypergraphPort, HypergraphRelation)
from rei.hypergraph.common_definitions import EnumRelationDirection               # noqa: E402
from rei.hypergraph.value_node import SemanticValueNode, ValueNode                # noqa: E402
from rei.query.query_engine import HypergraphQueryEngine                          # noqa: E402

DIRS = [EnumRelationDirection.INWARDS, EnumRelationDirection.OUTWARDS, EnumRelationDirection.BIDIRECTIONAL]
BADI = -777
BADS = "!unreadable"


class Hang(BaseException):
    pass


class Boom(Exception):
    """Raised by visitors the harness lets fail."""


class ManualClock(MetaClock):
    def __init__(self, t=0):
        self.t = t

    def get_time_ns(self):
        return self.t

    def get_time_sec(self):
        return self.t / 1e9


def _alarm(_sig, _frm):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


class time_limit:
    def __init__(self, sec):
        self.sec = sec

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, self.sec)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def run_async(coro):
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.close()


def classify(ex):
    if isinstance(ex, ErrorDuplicateElement):
        return "dup"
    if isinstance(ex, ErrorRecursiveHierarchy):
        return "rec"
    if isinstance(ex, ErrorInvalidQuery):
        return "invalid"
    if isinstance(ex, ErrorInsufficientValues):
        return "insuf"
    if isinstance(ex, InvalidSemanticType):
        return "type"
    if isinstance(ex, Boom):
        return "boom"
    if isinstance(ex, Hang):
        return "hang"
    if isinstance(ex, KeyError):
        return "missing"
    if isinstance(ex, IndexError):
        return "index"
    return "exc"


def as_int(x, scale=1):
    """A number of the library as an integer; anything else is a marker."""
    try:
        y = float(x) * scale
    except Exception:
        return BADI
    if y != y or abs(y) > 2e9:
        return BADI - 1
    r = round(y)
    return int(r) if abs(y - r) < 1e-6 else BADI - 2


def plain(x):
    """how a value that is no text and no number is written, if it is made of basic ones"""
    ok = x is None or type(x) in (str, bytes, bool, int, float) or type(x) in (list, tuple, dict) and all(
        plain(y) for y in (x.values() if isinstance(x, dict) else x))
    return "<%s>" % ascii(x) if ok else ""


# values that are not small numbers, and the numbers that stand for them in the specification
EXOTIC = ["text", 2 ** 60 + 1, 0.1, 1e300, None, [1, [2.5, "x"]], float("inf"), "", b"\x00\xff", -2 ** 63, {"k": [1]}, "5", 2 ** 70,
          "\u00fc\u4e2d", 1e-9, True, False, 1, 0.0, 3.0, 2]
EXO = 700001


def given(x, parts=1):
    """the value a number of the specification stands for (counted in parts)"""
    if x >= EXO:
        return EXOTIC[x - EXO]
    return x // parts if x % 3 == 0 and x % parts == 0 else x / parts


def as_val(y, parts=1):
    """A value of a value node as an integer."""
    for n, e in enumerate(EXOTIC):
        if type(y) is type(e) and y == e:
            return EXO + n
    return as_int(y, parts) if type(y) in (int, float) else BADI


def truth(b, n):
    """yes or no, said in one of Python's ways"""
    return [True, 1, "x", [0], 2.5, True][n % 6] if b else [False, 0, "", [], None, 0.0][n % 6]


KIND = [(HypergraphNode, "node"), (HypergraphEdge, "edge"), (HypergraphRelation, "rel"),
        (HypergraphPort, "port"), (ValueNode, "val"), (SemanticValueNode, "sem")]


def kind(x):
    for c, k in KIND:
        if isinstance(x, c):
            return k
    return "other"




def logged(f):
    """Remember structural calls, so that they can be made again in another world."""
    name = f.__name__

    def g(self, *a, **k):
        n = len(self.ev)
        now = self.now()
        v = f(self, *a, **k)
        if len(self.ev) == n + 1:
            self.log[n] = (name, a, k, now)
        return v
    return g


class World:
    unit = 100                                         # numbers of attributes are kept times this
    parts = 1                                          # values of value nodes are kept times this

    def __init__(self, name, ncheck=2):
        self.name = name
        self.facs = []
        self.log = {}              # event number -> structural call
        self.clocks = [ManualClock(), ManualClock()][:ncheck]
        self.clocks[-1].t = 500 if ncheck > 1 else 0
        self.objs = []
        self.idx = {}
        self.uids = {}
        self.keys = set()
        self.last = []
        self.ev = []
        self.notes = []
        self.broken = False
        self.limit = 5.0
        self.hand = set()          # relations the program built itself
        self.given = None          # the list of values the caller gave last

    # ---- clocks -------------------------------------------------------
    def tick(self, d=1, which=None):
        for i, c in enumerate(self.clocks):
            if which is None or which == i:
                c.t = max(0, c.t + d)              # clocks are set back, too

    def now(self):
        return [c.t for c in self.clocks]

    def clk(self, ck):
        return self.clocks[ck - 1]

    def ckid(self, c):
        for i, x in enumerate(self.clocks):
            if x is c:
                return i + 1
        return -1

    def num(self, vals):
        """values as the library is given them (1 and 1.0 are one number but two encodings)"""
        return None if vals is None else [given(x, self.parts) for x in vals]

    # ---- identity -----------------------------------------------------
    def tok(self, u):
        if not isinstance(u, (bytes, str, int)):
            return "?" + str(type(u))
        k = u if isinstance(u, bytes) else repr(u).encode()
        if k not in self.uids:
            self.uids[k] = "u%d" % (len(self.uids) + 1)
        return self.uids[k]

    def id(self, x):
        if x is None:
            return 0
        return self.idx.get(id(x), -1)

    def ids(self, xs):
        return [self.id(x) for x in xs]

    def __getitem__(self, i):
        return self.objs[i - 1] if i else None

    def add_obj(self, x):
        if id(x) not in self.idx:
            self.objs.append(x)
            self.idx[id(x)] = len(self.objs)
        return self.idx[id(x)]

    # ---- projection ---------------------------------------------------
    def children(self, x):
        return list(x.get_subelements(lambda y: True))

    def discover(self, extra=()):
        """Give numbers to elements that became reachable, in a fixed order."""
        new, seen = [], set()
        todo = list(extra) + list(self.objs)
        fuel = 200000
        while todo and fuel:
            fuel -= 1
            x = todo.pop(0)
            if id(x) in seen or x is None:
                continue
            seen.add(id(x))
            if id(x) not in self.idx:
                new.append(x)
            try:
                todo.extend(self.children(x))
                if kind(x) == "rel" and x.endpoint is not None:
                    todo.append(x.endpoint)
            except Exception:
                pass
        rels = [x for x in new if kind(x) == "rel"]
        ports = [x for x in new if kind(x) == "port"]
        for x in new:
            if kind(x) not in ("rel", "port"):
                self.add_obj(x)
        for r in rels:
            self.add_obj(r)
            for p in ports:
                if p.endpoint is r:
                    self.add_obj(p)
        for p in ports:
            self.add_obj(p)

    def _get(self, f, bad):
        try:
            return f()
        except Exception:
            return bad

    def attr_val(self, x):
        if isinstance(x, bool):
            return dict(s=str(x), v=[])
        if isinstance(x, str):
            return dict(s=x, v=[])
        if isinstance(x, (int, float)):
            return dict(s="#", v=[as_int(x, self.unit)])
        if isinstance(x, (list, tuple)):
            if all(isinstance(y, (int, float)) for y in x):
                return dict(s="", v=[as_int(y, self.unit) for y in x])
            return dict(s=plain(x) or "tuple", v=[])
        return dict(s=plain(x) or BADS, v=[])

    def project(self, x):
        g = self._get
        k = kind(x)

        def num(f):
            v = g(f, BADI)
            return v if isinstance(v, int) and abs(v) < 2 ** 31 else BADI

        def txt(f):
            v = g(f, BADS)
            return v if isinstance(v, str) else BADS
        ch = g(lambda: self.ids(self.children(x)), [BADI])
        conc = isinstance(x, ConceptualItem)
        r = dict(k=k, y=type(x).__name__, n=txt(lambda: x.id_name), u=g(lambda: self.tok(x.uuid), BADS),
                 ck=g(lambda: self.ckid(x.clock), BADI) if conc else 0,
                 p=g(lambda: self.id(x.parent), BADI), ch=ch,
                 cnt=num(lambda: x.cnt_subelements) if conc else len(ch),
                 d=num(lambda: x.depth), q=txt(lambda: x.qualified_name), c=num(lambda: x.cid),
                 t=num(lambda: x.timestamp) if conc else -1,
                 e=0, dir=-1, w=0, sv=0, v=[], at=[], og=txt(lambda: x.progenitor_qualified_name))
        if k == "rel":
            r["e"] = g(lambda: self.id(x.endpoint), BADI)
            r["dir"] = g(lambda: DIRS.index(x.direction), BADI)
            r["w"] = g(lambda: self.id(x.weight), BADI)
            r["sv"] = g(lambda: self.id(x.semantic_value_node), BADI)
        elif k == "port":
            r["e"] = g(lambda: self.id(x.endpoint), BADI)
        elif k == "val":
            r["v"] = g(lambda: [as_val(y, self.parts) for y in x.get_values()], [BADI])
        elif k == "sem":
            at = []
            for key in sorted(self.keys):
                v = g(lambda: x[key], BADS)
                if v is not None:
                    at.append(dict(k=key, **self.attr_val(v)))
            r["at"] = at
        return r

    # ---- events -------------------------------------------------------
    def emit(self, op, a, out, res, extra=(), **more):
        try:
            with time_limit(20):
                self.discover(extra)
                cur = [self.project(x) for x in self.objs]
        except Hang:                                  # reading the structure does not end
            self.broken = True
            e = dict(op=op, a=a, now=self.now(), out="hang", res=[], dl=[])
            e.update(more)
            self.ev.append(e)
            return e
        dl = [dict(i=i + 1, r=c) for i, c in enumerate(cur)
              if i >= len(self.last) or self.last[i] != c]
        self.last = cur
        e = dict(op=op, a=a, now=self.now(), out=out, res=res, dl=dl)
        e.update(more)
        self.ev.append(e)
        return e

    def attempt(self, f):
        """(outcome, value)"""
        try:
            with time_limit(self.limit):
                return "ok", f()
        except Hang:
            self.broken = True
            return "hang", None
        except RecursionError:
            return "exc", None
        except Exception as ex:                       # noqa: BLE001
            self.notes.append("%s: %s" % (type(ex).__name__, str(ex)[:100]))
            return classify(ex), None

    def call(self, op, a, f, conv=lambda v: [], keep=lambda v: ()):
        """Perform f and log it; conv turns its value into ids, keep gives new elements."""
        out, val = self.attempt(f)
        extra = list(keep(val)) if out == "ok" else []
        try:
            with time_limit(20):
                self.discover(extra)
                res = conv(val) if out == "ok" else []
        except Hang:
            self.broken = True
            res, out = [], "hang"
        except Exception:                             # noqa: BLE001
            res, out = [], "exc"
        self.emit(op, a, out, res, extra)
        return val

    # ---- structural operations ----------------------------------------
    def uid(self, s):
        return s.encode() if isinstance(s, str) else s

    @logged
    def new(self, k, name, u, p=0, ck=1, vals=None, cls=None, attrs=None):
        uid = self.uid(u)
        par = self[p]
        y = {"node": cls or "HypergraphNode", "edge": "HypergraphEdge", "val": "ValueNode",
             "sem": cls or "SemanticValueNode"}[k]
        og = "made/" + name                            # where the program says it was made
        a = dict(k=k, n=name, u=self.tok(uid), ck=ck if k in ("node", "edge") else 0, p=p, y=y, v=list(vals or []), at=[], og=og)
        if k == "node":
            c = HypergraphQueryEngine if cls else HypergraphNode         # an engine is a node, too
            f = lambda: c(name, uid, og, self.clk(ck), par)
        elif k == "edge":
            f = lambda: HypergraphEdge(name, uid, og, self.clk(ck), par)
        elif k == "val":
            assert not p
            self.given = vs = self.num(vals)
            f = lambda: ValueNode(uid, name, og, vs) if vs is not None else ValueNode(uid, name, og)
        else:
            assert not p
            self.keys.update((attrs or {}).keys())
            a["at"] = [dict(k=q, **self.attr_val(v)) for q, v in sorted((attrs or {}).items()) if v is not None]
            c = getattr(CE, cls) if cls else SemanticValueNode
            attrs = self.given = dict(attrs or {})
            f = (lambda: c(uid, name, og, None, attrs or {}, None)) if cls and cls.endswith("Geometry") \
                else (lambda: c(uid, name, og, None, attrs or {}))
        n0 = len(self.objs)
        self.call("new", a, f, keep=lambda v: [v])
        return n0 + 1 if len(self.objs) > n0 else 0

    @logged
    def add(self, p, c, reg=False):
        if reg:
            self.call("add", dict(p=p, c=c, reg=True), lambda: self[c].register(self[p]))
        else:
            self.call("add", dict(p=p, c=c, reg=False), lambda: self[p].add_element(self[c]))

    @logged
    def rm(self, p, n="", u=None, lim=-1):
        a = dict(p=p, n=n, u=self.tok(u) if u is not None else "", lim=lim)

        def f():
            g = self[p].remove_element(n, u) if u is not None else self[p].remove_element(n)
            if lim < 0:
                return list(g)
            out = []
            for _ in range(lim):
                try:
                    out.append(next(g))
                except StopIteration:
                    break
            self._keep = g                            # a suspended generator stays suspended
            return out
        self.call("rm", a, f, conv=self.ids)

    @logged
    def dereg(self, c):
        self.call("dereg", dict(c=c), lambda: self[c].deregister())

    @logged
    def addm(self, p, cs):
        self.call("addm", dict(p=p, cs=list(cs)),
                  lambda: run_async(self[p].add_elements([self[c] for c in cs])))

    @logged
    def rmm(self, p, qs):
        a = dict(p=p, qs=[dict(n=n, u=self.tok(u) if u is not None else "") for n, u in qs])
        self.call("rmm", a, lambda: run_async(self[p].remove_elements(list(qs))),
                  conv=lambda v: self.ids(v))

    @logged
    def conn(self, e, x, w=0, dir=2, sv=0):
        a = dict(e=e, x=x, w=w, dir=dir, sv=sv)
        n0 = len(self.objs)
        self.call("conn", a, lambda: self[e].unary_connect(self[x], self[w], DIRS[dir], self[sv]))
        return n0 + 1 if len(self.objs) > n0 else 0

    @logged
    def newrel(self, name, u, x, w=0, dir=2, sv=0):
        uid = self.uid(u)
        n0 = len(self.objs)
        self.call("newrel", dict(n=name, u=self.tok(uid), x=x, w=w, dir=dir, sv=sv, og="made/" + name),
                  lambda: HypergraphRelation(uid, name, "made/" + name, self[x], self[w], None, DIRS[dir], self[sv]),
                  keep=lambda v: [v])
        r = n0 + 1 if len(self.objs) > n0 else 0
        if r:
            self.hand.add(r)
        return r

    @logged
    def port(self, x, r):
        self.call("port", dict(x=x, r=r), lambda: self[x].connect(self[r]))

    @logged
    def disc(self, x, r):
        self.call("disc", dict(x=x, r=r), lambda: self[x].disconnect(self[r]))

    # ---- factories ----------------------------------------------------
    def factory(self, name, ck=1):
        f = HypergraphFactory(name, self.clk(ck))
        f._h = dict(n=name, ck=ck)
        self.facs.append(f)
        return f

    def semfactory(self, name, ck=1):
        f = CognitiveEntitySemanticFactory(name, self.clk(ck))
        f._h = dict(n=name, ck=ck)
        self.facs.append(f)
        return f

    @logged
    def fnode(self, f, name, p=0):
        n0 = len(self.objs)
        self.call("fnode", dict(f=f._h, n=name, p=p), lambda: f.generate_node(name, self[p]), keep=lambda v: [v],
                  conv=lambda v: [self.id(v)])
        return n0 + 1 if len(self.objs) > n0 else 0

    @logged
    def fnodes(self, f, names, p=0):
        n0 = len(self.objs)
        self.call("fnodes", dict(f=f._h, ns=list(names), p=p), lambda: f.generate_list_nodes(list(names), self[p]),
                  keep=lambda v: list(v), conv=lambda v: self.ids(v))
        return list(range(n0 + 1, len(self.objs) + 1))

    @logged
    def fedge(self, f, name, p, mode, a=(), b=(), d1=2, d2=2, vals=None, cs=()):
        """cs: list of (x, dir, w, sv)"""
        cont, A, B = self[p], [self[i] for i in a], [self[i] for i in b]
        V = None if vals is None else [self[i] for i in vals]
        arg = dict(mode=mode, a=list(a), b=list(b), d1=d1, d2=d2, has=vals is not None, vals=list(vals or []),
                   cs=[dict(x=x, dir=d, w=w, sv=v) for x, d, w, v in cs])
        dflt = mode == "nodes" and d1 == 2

        def g():
            if mode == "create":
                return f.create_hyperedge(cont, name)
            if mode == "nodes":
                if dflt:
                    return f.connect_nodes(cont, name, A, values=V)
                return f.connect_nodes(cont, name, A, DIRS[d1], V)
            if mode == "two":
                return f.connect_2factor_edges(cont, name, A, B, (DIRS[d1], DIRS[d2]), V)
            if mode == "dir":
                return f.connect_dir_edges(cont, name, A, B)
            return f.connect_tuple_nodes(cont, name, [(self[x], DIRS[d], self[w], self[v]) for x, d, w, v in cs])
        n0 = len(self.objs)
        self.call("fedge", dict(f=f._h, n=name, p=p, a=arg), g, keep=lambda v: [v], conv=lambda v: [self.id(v)])
        return n0 + 1 if len(self.objs) > n0 else 0

    @logged
    def fano(self, name, ck=1):
        """the sample graph of the library"""
        from rei.hypergraph.sample_graphs.fano_graph import create_fano_graph
        n0 = len(self.objs)

        def keep(v):
            _, root, nodes, edges = v
            for x in [root, *nodes]:
                self.add_obj(x)
            for e in edges:
                self.add_obj(e)
                for r in self.children(e):
                    self.add_obj(r)
                    for p in self.children(r.endpoint):
                        if p.endpoint is r:
                            self.add_obj(p)
            return [root]
        h = dict(n=name, ck=ck)
        v = self.call("fano", dict(f=h), lambda: create_fano_graph(name, self.clk(ck)), keep=keep,
                      conv=lambda v: self.ids([v[1], *v[2], *v[3]]))
        if v is None:
            return 0, None
        v[0]._h = h
        return n0 + 1, v[0]

    @logged
    def fval(self, f, name, p=0, vals=None):
        n0 = len(self.objs)
        self.given = vs = self.num(vals)
        self.call("fval", dict(f=f._h, n=name, p=p, v=list(vals or [])),
                  lambda: f.create_value(self[p], name, vs) if vs is not None else f.create_value(self[p], name), keep=lambda v: [v], conv=lambda v: [self.id(v)])
        return n0 + 1 if len(self.objs) > n0 else 0

    @logged
    def fsem(self, f, raw, name, p, attrs, values=None):
        self.keys.update(attrs.keys())
        if values is not None:
            self.keys.add("values")
        attrs = dict(attrs)
        self.given = attrs
        canon = "".join(raw.lower().strip().split("_"))
        n0 = len(self.objs)
        self.call("fsem", dict(f=f._h, canon=canon, n=name, p=p,
                               at=[dict(k=k, **self.attr_val(v)) for k, v in sorted(attrs.items())],
                               v=[as_int(x, self.unit) for x in values or []], hasv=values is not None),
                  lambda: f.generate_semantic_element(raw, name, self[p], attrs, values),
                  keep=lambda v: [v], conv=lambda v: [self.id(v)])
        return n0 + 1 if len(self.objs) > n0 else 0

    # ---- values -------------------------------------------------------
    @logged
    def vset(self, i, idx, x, item=True):
        if item:
            def f():
                self[i][idx] = given(x, self.parts)
        else:
            f = lambda: self[i].update_value(idx, given(x, self.parts))
        self.call("vset", dict(i=i, j=idx, x=x), f)

    @logged
    def vslice(self, i, lo, hi, xs, item=True):
        """values lo .. hi - 1 are replaced; returns the caller's list"""
        mine = self.num(xs)
        if item:
            def f():
                self[i][lo:hi] = mine
        else:
            f = lambda: self[i].update_value(slice(lo, hi), mine)
        self.call("vslice", dict(i=i, j=lo, h=hi, v=list(xs)), f)
        return mine

    @logged
    def vall(self, i, xs):
        """Bulk update; returns the caller's list so that it can be changed afterwards."""
        mine = self.num(xs)
        self.call("vall", dict(i=i, v=list(xs)), lambda: self[i].update_values(mine))
        return mine

    @logged
    def aset(self, i, key, val):
        self.keys.add(key)
        x = self[i]
        f = x.setup if key == "name" and type(x) is CE.CognitiveEntity and isinstance(val, str) and val else None
        self.call("aset", dict(i=i, x=dict(k=key, **self.attr_val(val))),
                  (lambda: f(val)) if f else lambda: x.add_named_attribute(key, val))

    @logged
    def adel(self, i, key):
        self.call("adel", dict(i=i, k=key), lambda: self[i].remove_named_attribute(key))

    @logged
    def setck(self, i, ck):
        def f():
            self[i].clock = self.clk(ck)
        self.call("setck", dict(i=i, ck=ck), f)

    def noop(self, what, f=lambda: None):
        """Something the library must not react to (changing a caller's list, a returned copy)."""
        out, _ = self.attempt(f)
        self.emit("noop", dict(w=what), out, [])

    # ---- observations -------------------------------------------------
    def find(self, p, toks):
        self.call("find", dict(p=p, toks=list(toks)), lambda: list(self[p].get_element_by_id_name("/".join(toks))),
                  conv=self.ids)

    def kids(self, p, flt):
        F = set(flt)
        self.call("kids", dict(p=p, flt=sorted(F)),
                  lambda: list(self[p].get_subelements(lambda x: truth(self.id(x) in F, self.id(x)))), conv=self.ids)

    def get(self, p, u):
        self.call("get", dict(p=p, u=self.tok(u)), lambda: [self[p][u]], conv=self.ids)

    def views(self, i):
        """All derived views of an element, as a list of lists of ids."""
        x = self[i]
        k = kind(x)
        if k == "node":
            f = lambda: [list(x.sub_ports), list(x.sub_nodes), list(x.sub_edges), list(x.sub_values)]
        elif k == "edge":
            f = lambda: [list(x.sub_ports), list(x.sub_relations), list(x.induced_subset),
                         list(x.get_incoming_relations()), list(x.get_outgoing_relations())]
        elif k == "rel":
            def f():
                v = x.relation_incidence_value
                r = [as_int(y) for y in v]
                v[:] = 7.0                            # the reader's copy
                return r + [as_int(y) for y in x.relation_incidence_value]
            self.call("incid", dict(i=i), f, conv=lambda v: list(v))
            return
        else:
            return
        self.call("views", dict(i=i), f, conv=lambda v: [self.ids(q) for q in v])

    def vread(self, i):
        x = self[i]
        val = lambda y: as_val(y, self.parts)
        if kind(x) == "val":
            self.call("vread", dict(i=i),
                      lambda: [[val(y) for y in x], [val(y) for y in x.get_values()], [val(y) for y in x.val],
                               [val(x[j]) for j in range(len(x.get_values()))],
                               [val(x.get_value(j)) for j in range(len(x.get_values()))],
                               [val(x[j]) for j in range(-len(x.get_values()), 0)],
                               [self.attempt(lambda: f(j))[0] for j in (len(x.get_values()), -len(x.get_values()) - 1) for f in (x.get_value, x.__getitem__)]],
                      conv=lambda v: v)

    # ---- doing it again -----------------------------------------------
    def again(self, other, upto=None, skip=()):
        """Make the structural calls of another world here (same kind of world, fresh)."""
        for f in other.facs[len(self.facs):]:
            (self.semfactory if isinstance(f, CognitiveEntitySemanticFactory) else self.factory)(f._h["n"], f._h["ck"])
        self.uids.update(other.uids)
        self.keys |= other.keys
        sub = lambda x: self.facs[[g is x for g in other.facs].index(True)] if any(g is x for g in other.facs) else x
        done = []
        for n in sorted(other.log):
            if n in skip or (upto is not None and n >= upto):
                continue
            name, a, k, now = other.log[n]
            for c, t in zip(self.clocks, now):
                c.t = t
            getattr(self, name)(*[sub(x) for x in a], **k)
            done.append(n)
        return done

    def trace(self):
        return dict(id=self.name, ev=self.ev)
