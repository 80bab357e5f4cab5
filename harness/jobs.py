"""Which histories each property is checked on, and which disagreements are its own."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from drive import Driver, BASE                                   # noqa: E402
from cogni import COGNI, CogniDriver, ExampleDriver                  # noqa: E402
from kin import KIN, KinDriver                              # noqa: E402
from special import Clocks, Identities, Isolated, Leftover, Size, Twin      # noqa: E402
import tour                                                       # noqa: E402
from drive2 import FLATMUT, MUT, FlatDriver, ObsDriver, RawDriver           # noqa: E402

REMOVALS = {"rm", "dereg", "rmm"}
STRUCT = {"newrel", "port", "setck", "new", "add", "rm", "dereg", "addm", "rmm", "conn", "disc", "fnode", "fnodes", "fedge", "fval", "fsem"}
READS = {"noop", "find", "get", "print", "clock", "kids", "views", "incid", "vread", "trav", "srch", "qeng", "index", "tens", "lap", "ent", "fac", "hyp",
         "facsub", "facrel", "facmap", "ctx", "enc", "dec", "msg", "apply", "look", "coo", "ident", "scale", "same"}


class Fail:
    """One disagreement between a recorded step and the specification."""

    def __init__(self, tid, step, op, out, clauses, expected, event, before):
        self.tid, self.step, self.op, self.out = tid, step, op, out
        self.clauses, self.expected, self.event, self.before = clauses, expected, event, before

    def field(self, *names, kinds=None, same=None):
        """a field clause for one of these fields (and kinds of element)"""
        for c in self.clauses:
            p = c.split(":")
            if p[0] in ("f", "x") and len(p) == 3 and p[1] in names and (kinds is None or p[2] in kinds):
                if same is None or (p[0] == "x") == same:
                    return True
        return False

    def frame(self):
        return any(c.startswith("x:") for c in self.clauses) or "count" in self.clauses or "state" in self.clauses

    def has(self, *cl):
        return any(c in self.clauses for c in cl)

    def rejected(self):
        """the specification allows only rejections here"""
        return bool(self.expected) and "ok" not in self.expected

    def text(self):
        a = {k: v for k, v in self.event.get("a", {}).items() if k not in ("pic", "idx")}
        s = "history %s step %d: %s -> %s, clauses %s, expected outcome %s, call %s" % (
            self.tid, self.step, self.op, self.out, self.clauses, self.expected, a)
        return s if len(s) < 700 else s[:700] + "..."


def wrong_out(f, *ops):
    return f.op in ops and "out" in f.clauses


def h01(f):
    return f.has("inv:forest") or f.field("p", "ch") or f.has("out") and f.op in ("add", "addm", "new", "dereg") or \
        "rec" in f.expected and f.has("out") or f.has("state") and f.op in STRUCT


def h02(f):
    return f.field("q", "d") or f.has("inv:names", "inv:depth")


def h03(f):
    return f.field("ch", "cnt", "c") or f.has("inv:count", "inv:numbers") or \
        f.op in ("kids", "views") and f.has("res", "out")


def h04(f):
    return f.op in ("find", "get") and f.has("res", "out")


def h05(f):
    return f.rejected() or f.op == "same"


def h06(f):
    if f.op in REMOVALS | {"addm"}:
        return f.has("res", "out", "state", "count") or f.field("p", "ch", "cnt") or f.frame()
    if f.op in ("find", "get", "kids") and f.has("res", "out"):
        return any(e["op"] in REMOVALS for e in f.before)
    if f.op in ("add", "conn") and f.has("out") and f.out in ("dup", "missing", "exc"):
        return any(e["op"] in REMOVALS for e in f.before)
    return False


def h07(f):
    return f.field("t") or f.op in ("clock", "setck")


def e01(f):
    return f.field("e", "dir", "w", "sv", kinds=("rel",)) or f.op in ("views", "incid") and f.has("res", "out") or \
        f.op == "conn" and (f.has("out", "count", "state") or f.field("ch", kinds=("edge", "rel"))) or \
        f.op in REMOVALS and f.field("ch", kinds=("edge",))


def e02(f):
    return f.field("e", "p", "ch", "n", "k", "q", "d", kinds=("port",)) or f.has("inv:ports") or \
        f.op in ("add", "new", "fnode") and f.has("count") or \
        f.op in ("conn", "disc") and (f.has("out", "count", "state") or f.frame() or f.field("ch", "k"))


def e03(f):
    return f.op in ("fedge", "fano") and (f.has("out", "count", "state", "res", "inv:forest") or any(
        f.field(x) for x in ("e", "dir", "w", "sv", "ch", "p", "n", "k", "y")))


def e04(f):
    return f.op in ("vset", "vslice", "vall", "aset", "adel", "noop", "vread") or f.field("v", "at", "w", "sv")


def t02(f):
    return f.op == "same" or f.op in READS and f.frame() or f.op in READS and f.has("res", "out")


PROPS = {}


def prop(pid, mine, jobs, gen=None):
    PROPS[pid] = dict(mine=mine, jobs=jobs, gen=gen)


# name, driver, profile, quick count, thorough count, length, driver options
def job(tag, drv, prof, nq, nt, length, boom=0, **opt):
    return dict(tag=tag, drv=drv, prof=prof, nq=nq, nt=nt, len=length, opt=opt, boom=boom)


HIER = dict(new=2, newp=4, add=10, reg=3, rmu=4, rmn=3, rmnu=2, rmp=1, rmbad=1, dereg=3, addm=3, rmm=2, fnode=2, conn=2, tick=2)
ALL = job("all", Driver, BASE, 110, 900, 60)
# few names and containers, many children
WIDEP = dict(new=1, newp=26, add=8, reg=1, rmu=2, rmn=2, rmnu=1, rmp=2, rmbad=1, dereg=2, addm=2, rmm=2, fnode=1, conn=2, find=4, kids=2,
             views=1, fsem=1, fval=1, tick=1)


def wide(**kw):
    return job("wide", Driver, dict(WIDEP, **kw), 24, 200, 140, maxel=80, focus=3, names=["n", "m", "n", "n"])






def deep(**kw):
    """chains of many levels, moved about and cut"""
    return job("deep", Driver, dict(dict(chain=6, add=8, reg=2, rmu=2, rmn=1, dereg=2, addm=1, rmm=1, conn=2, find=6, kids=1, fnode=2, fsem=1,
                                         disc=1, tick=2), **kw), 16, 160, 60, maxel=70)


def small(conf, quick, thorough, parts=16, reads=None, share=(1.0, 1.0), tag=None):
    """every call in every state of a small system (or everything that can be read there)"""
    d = tour.Tour(conf, quick, thorough, reads, share)
    return job(tag or "small-" + conf, d, None, parts, parts, parts)


FOREST, ALLF = small("hier", (4, 0), (5, 0)), small("plain", (4, 0), (5, 0))
CONNS, HANDS = small("conn", (0, 2), (0, 3)), small("hand", (0, 1), (0, 1))
UNDER = small("under", (6, 1), (7, 1), share=(0.15, 0.2))
FACS = small("fac", (3, 0), (3, 0))
ATTRS = small("attr", (2, 0), (2, 0))


def forests(reads, share=(1.0, 1.0)):
    return small("plain", (4, 0), (5, 0), 16, reads, share, "forests")


def kins():
    return small("kin", (0, 3), (0, 4), 16, tour.r_sdf, (0.3, 0.3), "joints")


def flats(reads, share=(1.0, 1.0)):
    return small("flat", (0, 2), (0, 3), 16, reads, share, "flats")


prop("H01", h01, [FOREST, job("hier", Driver, HIER, 130, 1500, 60), wide(), deep(), ALL])
prop("H02", h02, [FOREST, HANDS, job("hier", Driver, dict(HIER, conn=5, fsem=2), 130, 1500, 60), wide(), deep(), ALL])
prop("H03", h03, [FOREST, forests(tour.r_kids), job("kids", Driver, dict(HIER, kids=6, views=4, conn=4, disc=2), 130, 1500, 70), wide(), deep(), ALL])
prop("H04", h04, [forests(tour.r_find), job("find", Driver, dict(HIER, find=25, get=4, conn=3, fsem=2, addm=3), 150, 1500, 90), wide(), deep(), ALL])
prop("H05", h05, [FOREST, FACS, UNDER, job("rej", Driver, dict(BASE, rmbad=10, add=16, newp=8, fsembad=5, fedge=10, conn=10, fnode=6, fval=6,
                                          fsem=6, find=8, tick=1), 130, 1500, 70, uids=[b"1", b"2", b"3", b"4"]), wide(), deep(), ALL,
                  job("twin", Twin(Driver, dict(BASE, rmbad=6, add=16, newp=8, fsembad=4, fedge=10, conn=10, fnode=6, fsem=6,
                                                find=3, tick=1), uids=[b"1", b"2", b"3", b"4"]), None, 60, 600, 70)])
prop("H06", h06, [FOREST, CONNS, job("rem", Driver, dict(HIER, rmu=8, rmn=8, rmnu=6, rmp=4, dereg=6, rmm=6, find=10, kids=2, conn=4,
                                          rmrel=3, rmport=2, newp=8), 150, 1500, 80), wide(), deep(), ALL])
prop("H07", h07, [FOREST, FACS, job("time", Driver, dict(HIER, tick=16, find=3, kids=2, conn=6, disc=3, fedge=3, rmrel=4, rmport=1,
                                           views=7, incid=2, vread=1, fval=1, vset=1, vall=1, fsem=1, aset=1, adel=1, setck=4), 130, 1500, 80),
                  job("clock", Clocks(), None, 4, 40, 40),
                  job("read", ObsDriver, dict(MUT, tick=8, trav=5, boom=2, srch=3, qeng=3, index=3), 25, 300, 60),
                  job("flat", FlatDriver, dict(FLATMUT, tick=8, tens=3, enc=4, upd=3, fac=1), 25, 300, 60)])
prop("E01", e01, [CONNS, HANDS, UNDER, job("edge", Driver, dict(BASE, hrel=7, below=4, hport=1, conn=16, connsv=4, disc=4, rmrel=6, views=14, incid=6, new=5, fedge=5),
                      130, 1500, 70), ALL])
prop("E02", e02, [CONNS, HANDS, UNDER, job("port", Driver, dict(BASE, hrel=5, hport=2, below=3, conn=20, connsv=4, disc=10, rmrel=4, rmport=2, views=6, fedge=4, find=4,
                                           tick=8), 130, 1500, 70), ALL])
class FacDriver(Driver):
    groups = [0, 1, 1, 2, 3, 3, 4, 5, 7]


prop("E03", e03, [FACS, job("fac", FacDriver, dict(new=6, fnode=6, fedge=24, fval=8, fsem=4, views=4, tick=6, add=2, newp=2),
                      160, 1500, 70, maxel=90),
                  job("fano", Driver, dict(new=2, fano=3, fnode=4, fedge=6, views=8, tick=1, rmu=1), 6, 60, 24, maxel=130), ALL])
prop("E04", e04, [ATTRS, job("val", Driver, dict(new=6, fval=10, fsem=10, vset=14, vall=14, aset=10, adel=8, vread=12, conn=4,
                                          add=2, fnode=2), 150, 1500, 70, exotic=0.2), ALL])


def fano(**kw):
    """the sample graph of the library, changed and read"""
    return job("fano", FlatDriver, dict(FLATMUT, gedge=4, ghrel=2, gnode=1, **kw), 6, 60, 30, fano=True, maxel=75)


def reads(*ops):
    return lambda f: f.op in ops and f.has("res", "out")


OBS = dict(MUT, trav=4, srch=3, qeng=3, index=3)
NEST = dict(FLATMUT, gnest=4)

prop("T01", reads("trav", "print"), [forests(tour.r_trav, (0.5, 0.3)), 
    job("trav", ObsDriver, dict(MUT, trav=22, show=3), 90, 1000, 80, maxel=34),
    job("deep", ObsDriver, dict(new=3, newp=10, add=5, dereg=1, rmu=1, conn=2, fsem=2, trav=20), 60, 700, 90, maxel=45),
    job("chain", ObsDriver, dict(chain=4, newp=3, add=3, trav=12), 12, 120, 50, maxel=70)])
prop("Q01", reads("srch"), [forests(tour.r_srch, (0.5, 0.5)), 
    job("srch", ObsDriver, dict(MUT, add=10, dereg=3, srch=26), 90, 1000, 90),
    job("chain", ObsDriver, dict(chain=4, newp=3, add=3, srch=12), 12, 120, 50, maxel=70),
    job("left", Leftover(), None, 2, 2, 0),
    job("same", ObsDriver, dict(MUT, srch=22, add=8), 60, 600, 80, names=["a", "b"], maxel=34)])
prop("Q02", reads("qeng"), [forests(tour.r_qeng, (0.5, 0.5)), 
    job("qeng", ObsDriver, dict(MUT, qeng=16), 90, 1000, 80),
    job("chain", ObsDriver, dict(chain=4, newp=3, add=3, qeng=10), 12, 120, 50, maxel=70),
    job("flat", FlatDriver, dict(NEST, qeng=10, gnode=5), 40, 400, 70, nested=True)])
prop("X01", reads("index"), [forests(tour.r_index), 
    job("index", ObsDriver, dict(MUT, newp=9, index=16), 90, 1000, 80, maxel=34),
    job("flat", FlatDriver, dict(NEST, index=10), 50, 400, 70, nested=True)])
prop("N01", reads("tens"), [flats(tour.r_tens), 
    job("tens", FlatDriver, dict(FLATMUT, tens=9, gedge=6), 100, 1200, 80),
    job("nest", FlatDriver, dict(NEST, tens=9, gedge=6), 50, 500, 70, nested=True),
    job("same", FlatDriver, dict(FLATMUT, tens=9, gedge=5, ghrel=4, gtwin=2), 50, 500, 80, dups=0.5),
    fano(tens=9)])
prop("N02", reads("lap"), [flats(tour.r_lap), 
    fano(tens=10),
    job("lap", FlatDriver, dict(FLATMUT, tens=10, gedge=6), 60, 700, 70),
    job("raw", RawDriver, dict(raw=1), 40, 600, 40)])
prop("N03", reads("ent"), [flats(tour.r_ent), 
    job("ent", FlatDriver, dict(FLATMUT, tens=10, gedge=6), 60, 700, 70),
    job("small", FlatDriver, dict(gnode=2, gedge=3, ghrel=1, gvals=1, tens=8), 60, 700, 30),
    job("raw", RawDriver, dict(raw=1), 60, 700, 40)])
prop("M01", lambda f: f.op == "dec" and f.expected != ["otherfrom"] or f.op in ("ctx", "enc") and (f.out == "exc" or f.frame()), [flats(tour.r_enc), 
    fano(enc=8, upd=3, coo=2),
    job("enc", FlatDriver, dict(FLATMUT, enc=8), 120, 1400, 60, late=0.3, exotic=0.3),
    job("same", FlatDriver, dict(FLATMUT, enc=8, ghrel=4, gtwin=2), 50, 600, 60, late=0.3, exotic=0.3, dups=0.4)])
prop("M02", reads("msg", "apply", "look"), [flats(tour.r_enc), 
    job("upd", FlatDriver, dict(FLATMUT, enc=3, upd=9, gvals=6, look=2), 120, 1400, 80, late=0.3, exotic=0.3)])
prop("M03", reads("ctx", "enc", "coo"), [flats(tour.r_enc), 
    job("enc", FlatDriver, dict(FLATMUT, enc=9, coo=4), 120, 1400, 70, late=0.3, exotic=0.3),
    job("same", FlatDriver, dict(FLATMUT, enc=9, coo=4, ghrel=4, gtwin=2), 50, 600, 70, late=0.3, exotic=0.3, dups=0.4)])
prop("F01", reads("fac", "facsub", "facrel", "facmap"), [flats(tour.r_fac), 
    fano(fac=6, facsub=6, facrel=6),
    job("fac", FlatDriver, dict(FLATMUT, gedge=6, fac=6, facsub=6, facrel=6), 90, 1000, 70),
    job("same", FlatDriver, dict(FLATMUT, gedge=5, ghrel=5, fac=6, facsub=6, facrel=6, hyp=2), 60, 600, 80, dups=0.5),
    job("names", FlatDriver, dict(FLATMUT, gnode=1, gtwin=6, tick=0.2, fac=3, facsub=6, facrel=9), 40, 500, 60, dups=0.8, ctxs=(2, 3)),
    job("few", FlatDriver, dict(NEST, conn=8, fedge=4, newp=6, gedge=4, gnode=4, add=3, fac=2, facsub=8, facrel=6), 90, 900, 70,
        nested=True, few=True, ctxs=(2, 4)),
    job("twins", FlatDriver, dict(gtwin=4, glink=6, gnode=1, conn=1, tick=0.3, fac=8, facsub=1), 60, 500, 50, ctxs=(2, 4), dups=0.3, maxel=60),
    job("any", FlatDriver, dict(NEST, conn=8, fedge=4, newp=3, gedge=4, add=3, fac=8, facsub=4, facrel=4), 60, 700, 70,
        nested=True)])


ISO = dict(MUT, held=3, trav=5, boom=3, gather=3, within=3, srch=2, qeng=5, index=3, hyp=3, hypboom=1)
ISOFLAT = dict(FLATMUT, ghrel=1, held=3, tens=4, coo=3, enc=4, fac=3, facsub=2, facrel=2, gather=2, within=2, hyp=3, hypboom=2)
prop("T02", t02, [job("iso", Isolated(ObsDriver, ISO, maxel=24), None, 40, 400, 60),
                  job("isoflat", Isolated(FlatDriver, ISOFLAT), None, 40, 400, 60),
                  job("mix", ObsDriver, ISO, 60, 700, 80, boom=0.3),
                  job("mixflat", FlatDriver, ISOFLAT, 40, 400, 80, boom=0.3)])
prop("T03", reads("scale"), [job("size", Size([1300, 2600], [280, 260, 300], [1300, 7000]), None, 2 * len(Size.CASES), 2 * len(Size.CASES),
                                 0)])
prop("T04", reads("hyp"), [small("web", (0, 3), (0, 4), 16, tour.r_hyp, (0.35, 0.1), "webs"),
    job("web", FlatDriver, dict(FLATMUT, glink=8, gedge=4, gval=2, hyp=16, hypboom=1), 90, 900, 70, ctxs=(2, 5), maxel=45),
    job("same", FlatDriver, dict(FLATMUT, glink=5, ghrel=8, gtwin=2, hyp=14, hypboom=1), 40, 400, 70, ctxs=(2, 4), dups=0.5, maxel=60),
    job("twins", FlatDriver, dict(gtwin=4, glink=5, gnode=1, gval=1, conn=1, tick=0.3, hyp=8), 70, 500, 50, ctxs=(2, 4), dups=0.3, maxel=60)])
prop("I01", reads("ident"), [job("id", Identities(), None, 24, 200, 120)])
prop("I02", lambda f: f.field("og") or f.field("u", "n", same=True) or f.op == "dec" and "otherfrom" in f.expected, [
    FACS, job("make", Driver, dict(BASE, fnode=10, fedge=12, fval=8, fsem=8, tick=8, add=8, dereg=3), 110, 1000, 70, maxel=40),
    job("enc", FlatDriver, dict(FLATMUT, enc=8, upd=2), 40, 400, 60, late=0.3, exotic=0.3), ALL])



def sdf(*names):
    return lambda f: f.op == "sdf" and (f.frame() or f.out not in ("ok",) or any(
        n in x.split(":")[-1].split(".") for x in f.expected for n in names) )


KINJ = [job("kin", KinDriver, KIN, 60, 700, 130),
        job("many", KinDriver, dict(KIN, kbody=6, kset=5), 30, 300, 120, refs=False),
        job("parts", KinDriver, dict(KIN, kentity=0.3, kgraph=1, kbody=8), 16, 160, 90, refs=False, bodies=(1, 3, 4), parts=(2, 1, 3, 2)),
        job("deep", KinDriver, dict(KIN, kentity=0.2, kgraph=6, kjoint=8, kbody=1), 30, 300, 150, maxel=170, fan=3, bodies=(0, 0, 0, 1))]
prop("C01", lambda f: f.op == "read", [job("cogni", CogniDriver, dict(read=4, kset=1, krm=1, kjoint=1), 60, 600, 7, maxel=400),
                                       job("deep", CogniDriver, dict(read=1, tick=1), 30, 300, 4, maxel=900, deep=4, wide=6),
                                       job("ship", ExampleDriver, dict(read=1, kset=1, sdf=1), 6, 24, 8, maxel=400)])
prop("C02", lambda f: f.op in ("read", "sdf"), [
    job("conv", CogniDriver, dict(convert=1), 70, 700, 8, maxel=300),
    job("ship", ExampleDriver, dict(convert=2, read=1), 6, 24, 6, maxel=400),
    job("deep", CogniDriver, dict(convert=1), 16, 160, 4, maxel=600, deep=4, wide=6)])
KINJ.append(job("cogni", CogniDriver, COGNI, 20, 300, 40, maxel=200, wide=3))
KINJ.append(job("ship", ExampleDriver, dict(COGNI, kbody=0.2), 6, 60, 30, maxel=300))
KINJ.insert(0, kins())
prop("S01", sdf("model", "link", "joint", "dangling", "odd"), KINJ)
prop("S02", sdf("pose", "frame", "body", "inertia", "odd"), KINJ)


def build(pid, seed, tier):
    """the histories of a property's check, with what is needed to make one again"""
    out = []
    for j in PROPS[pid]["jobs"]:
        for i in range(j["nq"] if tier == "quick" else j["nt"]):
            out.append(dict(job=j["tag"], pid=pid, i=i, seed=seed))
    return out


def make(spec):
    j = [x for x in PROPS[spec["pid"]]["jobs"] if x["tag"] == spec["job"]][0]
    name = "%s-%s-%d" % (spec["pid"], spec["job"], spec["i"])
    if j["prof"] is None:
        return j["drv"](name, spec["seed"], j["len"])
    d = j["drv"](name, spec["seed"], j["prof"], **j["opt"])
    d.boom = j["boom"]
    t = d.run(j["len"])
    t["ev"] = t["ev"][:j["len"] + 40]
    return t

EXTRA = {}
TECH = "TLA+ specification; TLC validates traces of the real code against it"
TECHNIQUE = {}
NOTES = {}
COVER = {}


def level(pid):
    return "model_checking" if any(hasattr(j["drv"], "graph") for j in PROPS[pid]["jobs"]) else "exploration"


RELEVANT = {}
ASSUME = ["elements are used through the public API from one thread at a time",
          "the projection of an element (harness/world.py) reads it through the public properties only"]


def matches(x, f):
    """does a listed finding explain this disagreement?"""
    return f.tid == x["history"] and f.step == x["step"] and f.op == x["op"] and f.out == x["out"] and \
        f.event["res"] == x["res"]
