------------------------------- MODULE ReiKin -------------------------------
(***************************************************************************)
(* What the elements of a kinematic model mean: the simulator model (SDF)  *)
(* that its export has to give.  Numbers are attribute values times the    *)
(* unit U of the history; angles are radians times 10000 U and moments of  *)
(* inertia times 60 U^3.                                                   *)
(***************************************************************************)
EXTENDS ReiEnt

SemKids(o, i, cls) == SelectSeq(o[i].ch, LAMBDA c : o[c].k = "sem" /\ o[c].y = cls)
SubNodes(o, i) == KidsOf(o, i, "node")
IsGraph(o, n) == SemKids(o, n, "KinematicGraphDefinition") # <<>>
RECURSIVE GraphOf(_, _)
GraphOf(o, n) == IF n = None \/ IsGraph(o, n) THEN n ELSE GraphOf(o, o[n].p)

AttrS(o, i, key) == LET m == SelectSeq(o[i].at, LAMBDA x : x.k = key) IN IF m = <<>> THEN "" ELSE m[1].s
AttrV(o, i, key) == LET m == SelectSeq(o[i].at, LAMBDA x : x.k = key) IN IF m = <<>> THEN <<>> ELSE m[1].v

Pre2(P, name) == IF P = "" THEN name ELSE P \o "." \o name

(* ------------------------- poses ---------------------------------------- *)
(* 1/U degrees are 174.5329... times 1/10000 U radians *)
Deg(x) == x * 174 + (x * 53293) \div 100000
Pose(o, r) ==
  LET rot == AttrV(o, r, "rotation") IN
  AttrV(o, r, "translation") \o
  [i \in DOMAIN rot |-> IF AttrS(o, r, "rotation_type") = "deg" THEN Deg(rot[i]) ELSE rot[i] * 10000]
Near(x, y) == x - y \in (0 - 1)..1
NearAll(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Near(p[i], q[i])
PoseOf(o, i, default) ==
  LET m == SemKids(o, i, "RigidTransformation") IN IF m = <<>> THEN default ELSE Pose(o, m[1])
Zero6 == <<0, 0, 0, 0, 0, 0>>

(* ------------------------- bodies --------------------------------------- *)
Geoms(o, g) == SelectSeq(o[g].ch, LAMBDA c : o[c].k = "sem" /\
                 o[c].y \in {"CylinderGeometry", "EllipsoidGeometry", "PolyhedronGeometry"})
(* what the ports of g lead to: the parts of the bodies it refers to *)
Referred(o, g) ==
  LET ps == KidsOf(o, g, "port")
      Of(p) == LET out == Outgoing(o, o[o[p].e].p)
               IN FlattenSeq([j \in DOMAIN out |-> SubNodes(o, o[out[j]].e)])
  IN FlattenSeq([i \in DOMAIN ps |-> Of(ps[i])])
(* its own shapes, and those of the bodies it refers to, each once *)
RECURSIVE ShapesFrom(_, _, _)
ShapesFrom(o, todo, seen) ==
  IF todo = <<>> THEN <<>>
  ELSE IF Head(todo) \in seen THEN ShapesFrom(o, Tail(todo), seen)
  ELSE Geoms(o, Head(todo)) \o ShapesFrom(o, Referred(o, Head(todo)) \o Tail(todo), seen \cup {Head(todo)})
Shapes(o, g) == ShapesFrom(o, <<g>>, {})

Shape(o, s) ==
  LET v == AttrV(o, s, "values") IN
  CASE o[s].y = "CylinderGeometry" -> [t |-> "cylinder", v |-> v]
    [] o[s].y = "EllipsoidGeometry" -> [t |-> IF Len(v) = 1 THEN "sphere" ELSE "ellipsoid", v |-> v]
    [] OTHER -> [t |-> "box", v |-> IF Len(v) = 1 THEN <<v[1], v[1], v[1]>> ELSE v]

Bodies(o, l, P, visual) ==
  LET ns == SelectSeq(SubNodes(o, l), LAMBDA n : (SemKids(o, n, "VisualMaterial") # <<>>) = visual)
  IN FlattenSeq([i \in DOMAIN ns |->
       LET gs == SubNodes(o, ns[i])
       IN [j \in DOMAIN gs |->
             [n |-> Pre2(P, o[gs[j]].n),
              m |-> IF visual THEN AttrS(o, SemKids(o, ns[i], "VisualMaterial")[1], "material_name") ELSE "",
              g |-> LET ss == Shapes(o, gs[j]) IN [k \in DOMAIN ss |-> Shape(o, ss[k])]]]])

(* ------------------------- inertia --------------------------------------- *)
(* the shapes of the first body that has some; the mass is that of one of them *)
BodyShapes(o, l) ==
  LET ns == SubNodes(o, l)
      sh == [i \in DOMAIN ns |-> IF SubNodes(o, ns[i]) = <<>> THEN <<>> ELSE Shapes(o, SubNodes(o, ns[i])[1])]
      m == SelectSeq(sh, LAMBDA x : x # <<>>)
  IN IF m = <<>> THEN <<>> ELSE m[1]
Moments(M, h) ==
  LET v == h.v IN
  CASE h.t = "cylinder" -> LET x == 5 * M * (3 * v[1] * v[1] + v[2] * v[2]) IN <<x, x, 30 * M * v[1] * v[1]>>
    [] h.t = "sphere" -> LET x == 24 * M * v[1] * v[1] IN <<x, x, x>>
    [] h.t = "ellipsoid" -> <<12 * M * (v[2] * v[2] + v[3] * v[3]), 12 * M * (v[1] * v[1] + v[3] * v[3]),
                              12 * M * (v[1] * v[1] + v[2] * v[2])>>
    [] h.t = "box" -> <<5 * M * (v[2] * v[2] + v[3] * v[3]), 5 * M * (v[1] * v[1] + v[3] * v[3]),
                        5 * M * (v[1] * v[1] + v[2] * v[2])>>
(* is x what the export has to say about the inertia of link node l?
   Without a shape the moments are 1.                                 *)
InertiaOk(o, l, x) ==
  LET ms == SemKids(o, l, "InertiaElement")
      sh == BodyShapes(o, l)
  IN IF ms = <<>> THEN x = <<>>
     ELSE /\ Len(x) = 1
          /\ x[1].m = AttrV(o, ms[1], "mass")
          /\ Len(x[1].i) = 6
          /\ IF sh = <<>> THEN x[1].h = <<100, 100, 100, 0, 0, 0>>  \* in hundredths
             ELSE \E k \in DOMAIN sh : NearAll(x[1].i, Moments(x[1].m[1], Shape(o, sh[k])) \o <<0, 0, 0>>)

(* ------------------------- frames ---------------------------------------- *)
JointOf(o, r) == SemKids(o, r, "KinematicJoint")
RelsAt(o, n) == LET ps == KidsOf(o, n, "port") IN [i \in DOMAIN ps |-> o[ps[i]].e]
(* the joints that carry node n (not from the world) *)
Carriers(o, n) ==
  {JointOf(o, r)[1] : r \in {r \in Range2(RelsAt(o, n)) :
      /\ JointOf(o, r) # <<>> /\ o[r].dir = 1
      /\ \E q \in Range2(Incoming(o, o[r].p)) : o[o[q].e].n # "world"}}
(* semantic elements of a class below a graph, not entering graphs inside it *)
RECURSIVE OwnSem(_, _, _)
OwnSem(o, i, cls) ==
  LET cs == SelectSeq(o[i].ch, LAMBDA c : o[c].k \in {"node", "edge", "rel", "sem"} /\ ~IsGraph(o, c))
  IN SemKids(o, i, cls) \o FlattenSeq([j \in DOMAIN cs |-> OwnSem(o, cs[j], cls)])
Canon(o, g) ==
  LET carried == UNION {{o[r].e : r \in Range2(Outgoing(o, o[o[j].p].p))} : j \in Range2(OwnSem(o, g, "KinematicJoint"))}
  IN {k \in Range2(OwnSem(o, g, "KinematicLink")) : o[k].p \notin carried}

(* the joint a link's pose is relative to; "" is the model.  g: the graph
   that is exported because a joint refers to it, or None; the joint connects
   one of its links that no joint of its own carries. *)
Frames(o, n, P, g) ==
  LET A == Carriers(o, n)
      roots == IF g = None THEN {} ELSE {o[k].p : k \in Canon(o, g)}
      con == Pre2(P, "connect." \o o[n].n)
  IN IF A # {} THEN {Pre2(P, o[j].n) : j \in A}
     ELSE IF roots = {n} THEN {con}
     ELSE IF n \in roots THEN {"", con} ELSE {""}

(* ------------------------- the exported model ---------------------------- *)
LinkCore(o, k, P) == [n |-> Pre2(P, o[k].n), vis |-> Bodies(o, o[k].p, P, TRUE), col |-> Bodies(o, o[k].p, P, FALSE)]

LinkName(o, x, P) == IF o[x].n = "world" THEN "world" ELSE Pre2(P, o[x].n)
JointType(t) == IF t = "rev" THEN "revolute" ELSE IF t = "tr" THEN "prismatic" ELSE "fixed"

(* the joints a pair of relations may become: one, unless the graph referred
   to has several links that no joint carries *)
JointAlts(o, p, P, U) ==
  LET r0 == p[1]
      r1 == p[2]
      j == JointOf(o, r1)[1]
      e == o[r1].p
      x == o[r1].e
      ax == AttrV(o, j, "axis")
      par == LinkName(o, o[r0].e, P)
      ps == PoseOf(o, j, <<>>)
      base == [t |-> JointType(AttrS(o, j, "joint_type")), par |-> par, ax |-> IF ax = <<>> THEN <<0, 0, U>> ELSE ax,
               pose |-> ps, rel |-> IF ps = <<>> THEN "" ELSE par]
      Mk(name, child) == [n |-> name, ch |-> child] @@ base
  IN IF ~IsGraph(o, x) THEN {Mk(Pre2(P, o[j].n), LinkName(o, x, P))}
     ELSE {Mk(Pre2(P, o[e].n \o ".connect." \o o[c].n), Pre2(P, o[e].n \o "." \o o[c].n)) : c \in Canon(o, x)}

(* all links <<element, prefix, graph referred to>> and all pairs <<pair, prefix>> of an export *)
RECURSIVE AllOf(_, _, _, _, _)
AllOf(o, links, joints, P, gr) ==
  LET prs == SetToSeq(Pairs(o, {o[j].p : j \in Range2(joints)}, FALSE))
      sub == SelectSeq(prs, LAMBDA p : IsGraph(o, o[p[2]].e))
      S(p) == LET g == o[p[2]].e IN
              AllOf(o, OwnSem(o, g, "KinematicLink"), OwnSem(o, g, "KinematicJoint"), Pre2(P, o[o[p[2]].p].n), g)
      deep == [i \in DOMAIN sub |-> S(sub[i])]
  IN [l |-> [i \in DOMAIN links |-> <<links[i], P, gr>>] \o FlattenSeq([i \in DOMAIN sub |-> deep[i].l]),
      j |-> [i \in DOMAIN prs |-> <<prs[i], P>>] \o FlattenSeq([i \in DOMAIN sub |-> deep[i].j])]

OfClass(o, els, cls) == SelectSeq(els, LAMBDA i : o[i].y = cls)
(* calls: the exports whose elements go into this model *)
RECURSIVE AllCalls(_, _)
AllCalls(o, calls) ==
  IF calls = <<>> THEN [l |-> <<>>, j |-> <<>>]
  ELSE LET c == Head(calls)
           h == AllOf(o, OfClass(o, c.els, "KinematicLink"), OfClass(o, c.els, "KinematicJoint"), c.pre, None)
           t == AllCalls(o, Tail(calls))
       IN [l |-> h.l \o t.l, j |-> h.j \o t.j]

Count(q, P(_)) == Len(SelectSeq(q, P))
SameJoint(a, b) == /\ a.n = b.n /\ a.t = b.t /\ a.par = b.par /\ a.ch = b.ch /\ a.ax = b.ax /\ a.rel = b.rel
                   /\ NearAll(a.pose, b.pose)
InAlts(j, S) == \E x \in S : SameJoint(x, j)

(* exported things x against what is expected, as a set of complaints *)
SdfClauses(o, a) ==
  LET all == AllCalls(o, a.calls)
      ents == OfClass(o, a.calls[Len(a.calls)].els, "CognitiveEntity")
      exp == [i \in DOMAIN all.l |-> LinkCore(o, all.l[i][1], all.l[i][2])]
      Who(x) == {i \in DOMAIN exp : exp[i].n = x.n}
      alts == [i \in DOMAIN all.j |-> JointAlts(o, all.j[i][1], all.j[i][2], a.u)]
      names == {a.links[i].n : i \in DOMAIN a.links}
  IN (IF [i \in DOMAIN ents |-> o[ents[i]].n] = a.models THEN {} ELSE {"model"})
     \cup (IF /\ Len(exp) = Len(a.links)
              /\ \A x \in Range2(a.links) : Count(a.links, LAMBDA y : y.n = x.n) = Cardinality(Who(x))
           THEN {} ELSE {"link"})
     \cup (IF \A x \in Range2(a.links) : Who(x) # {} =>
                \E i \in Who(x) : /\ x.rel \in Frames(o, o[all.l[i][1]].p, all.l[i][2], all.l[i][3])
                                  /\ NearAll(x.pose, PoseOf(o, all.l[i][1], Zero6))
           THEN {} ELSE {"pose"})
     \cup (IF \A x \in Range2(a.links) : Who(x) # {} =>
                \E i \in Who(x) : /\ Len(x.vis) = Len(exp[i].vis) /\ Len(x.col) = Len(exp[i].col)
                                  /\ Range2(x.vis) = Range2(exp[i].vis) /\ Range2(x.col) = Range2(exp[i].col)
           THEN {} ELSE {"body"})
     \cup (IF \A x \in Range2(a.links) : Who(x) # {} =>
                \E i \in Who(x) : InertiaOk(o, o[all.l[i][1]].p, x.inert)
           THEN {} ELSE {"inertia"})
     \cup (IF /\ Len(a.joints) = Len(alts)
              /\ \A i \in DOMAIN alts : Count(a.joints, LAMBDA j : InAlts(j, alts[i])) = Cardinality({k \in DOMAIN alts : alts[k] = alts[i]})
           THEN {} ELSE {"joint"})
     \cup (IF a.whole => \A j \in Range2(a.joints) : {j.par, j.ch} \subseteq names \cup {"world"}
           THEN {} ELSE {"dangling"})
     \cup (IF a.whole => \A x \in Range2(a.links) : x.rel \in {j.n : j \in Range2(a.joints)} \cup {""}
           THEN {} ELSE {"frame"})
     \cup (IF a.odd = 0 THEN {} ELSE {"odd"})

DoSdf(s, a) ==
  LET c == SdfClauses(s.o, a)
  IN {R(IF c = {} THEN "ok" ELSE "not:" \o FoldLeft(LAMBDA x, y : x \o "." \o y, "", SetToSeq(c)), s, <<>>)}

(* ------------------------- descriptions ----------------------------------- *)
(* What reading a description has to give.  The elements it creates are taken
   from the recording; the clauses say what has to be true of them. *)
(* ---- recorded state ---- *)
Recorded(old, e) ==
  LET dl == TLCEval(e.dl)
      ids == TLCEval({dl[j].i : j \in DOMAIN dl})
      top == IF dl = <<>> THEN Len(old) ELSE Max({Len(old)} \cup ids)
      src == TLCEval([i \in ids |-> dl[CHOOSE j \in DOMAIN dl : dl[j].i = i].r])
  IN TLCEval([i \in 1..top |-> IF i \in ids THEN src[i] ELSE old[i]])

(* carry on from the recorded state *)
Resync(st, L, mem) ==
  [o |-> L,
   h |-> [i \in DOMAIN L |->
            LET known == IF i \in DOMAIN st.h THEN st.h[i] ELSE 0 IN
            Max({known} \cup {L[c].c + 1 : c \in Kids(L, i)})],
   mk |-> [i \in DOMAIN L |-> IF i \in DOMAIN st.mk THEN st.mk[i] ELSE ""],
   mem |-> mem]


Nums(env, q) == [i \in DOMAIN q |-> IF q[i].ref = "" THEN q[i].x
                                     ELSE (SelectSeq(env, LAMBDA p : p.n = q[i].ref))[1].x]
Say(cond, clause) == IF cond THEN {} ELSE {clause}
OneSem(o, i, cls) == Len(SemKids(o, i, cls)) = 1
SemCount(o, i) == Len(KidsOf(o, i, "sem"))
Named(o, s, n) == o[s].n = n /\ AttrS(o, s, "name") = n
NamesAre(o, q, ns) == [i \in DOMAIN q |-> o[q[i]].n] = ns

PoseSaid(o, i, p, env) ==
  IF p = <<>> THEN SemKids(o, i, "RigidTransformation") = <<>>
  ELSE /\ OneSem(o, i, "RigidTransformation")
       /\ LET m == SemKids(o, i, "RigidTransformation")[1]
              rot == AttrV(o, m, "rotation")
          IN /\ AttrV(o, m, "translation") = Nums(env, p[1].t)
             /\ IF p[1].r = <<>> THEN rot = <<0, 0, 0>>
                ELSE /\ rot = Nums(env, p[1].r)
                     /\ (AttrS(o, m, "rotation_type") = "deg") = (p[1].ty = "d")

(* a reference of m names is relative to the place m steps up *)
RECURSIVE Up(_, _, _), Walk(_, _, _)
Up(o, i, m) == IF m = 0 \/ i = None THEN i ELSE Up(o, o[i].p, m - 1)
Walk(o, is, tags) ==
  IF tags = <<>> THEN is
  ELSE Walk(o, UNION {{c \in Range2(SubNodes(o, i)) : o[c].n = Head(tags)} : i \in is}, Tail(tags))
RECURSIVE RootAbove(_, _)
RootAbove(o, i) == IF o[i].p = None THEN i ELSE RootAbove(o, o[i].p)
Target(o, b, tags) ==
  LET base == Up(o, b, Len(tags))
      root == RootAbove(o, b)
  IN IF base # None THEN Walk(o, {base}, tags)
     ELSE IF o[root].n = Head(tags) THEN Walk(o, {root}, Tail(tags)) ELSE {}

GeomClass(t) == CASE t = "cylinder" -> "CylinderGeometry" [] t = "ellipsoid" -> "EllipsoidGeometry"
                  [] OTHER -> "PolyhedronGeometry"
GeomSaid(o, b, x, env) ==
  /\ Len(SubNodes(o, b)) = 1
  /\ LET g == SubNodes(o, b)[1]
         gs == Geoms(o, g)
     IN IF x.geom.t = "ref"
        THEN /\ SemCount(o, g) = 0
             /\ \E y \in Target(o, b, x.geom.ref) : Referred(o, g) = SubNodes(o, y)
        ELSE /\ SemCount(o, g) = 1 /\ Len(gs) = 1 /\ Referred(o, g) = <<>>
             /\ o[gs[1]].y = GeomClass(x.geom.t)
             /\ AttrV(o, gs[1], "values") = IF x.geom.v = <<>> THEN Nums(env, <<[x |-> 0, ref |-> x.geom.ref[1]]>>)
                                            ELSE Nums(env, x.geom.v)
BodySaid(o, b, x, env) ==
  Say(x.n = "" \/ o[b].n = x.n, "body")
  \cup Say(IF x.vis THEN /\ OneSem(o, b, "VisualMaterial") /\ SemCount(o, b) = 1
                         /\ AttrS(o, SemKids(o, b, "VisualMaterial")[1], "material_name")
                            = IF x.mat = <<>> THEN "white" ELSE x.mat[1]
           ELSE SemCount(o, b) = 0, "material")
  \cup Say(GeomSaid(o, b, x, env), IF x.geom.t = "ref" THEN "ref" ELSE "geometry")

LinkSaid(o, k, x, env) ==
  LET ls == SemKids(o, k, "KinematicLink")
      bs == SubNodes(o, k)
      ms == SemKids(o, k, "InertiaElement")
  IN IF Len(ls) # 1 THEN {"link"}
     ELSE Say(Named(o, ls[1], x.n) /\ SemCount(o, k) = 1 + Len(ms) /\ KidsOf(o, k, "edge") = <<>>, "link")
          \cup Say(PoseSaid(o, ls[1], x.pose, env), "pose")
          \cup Say(Len(ms) = Len(x.mass) /\ \A i \in DOMAIN ms : AttrV(o, ms[i], "mass") = x.mass, "mass")
          \cup (IF Len(bs) # Len(x.bodies) THEN {"body"}
                ELSE UNION {BodySaid(o, bs[i], x.bodies[i], env) : i \in DOMAIN bs})

Dir(d) == CASE d = "<-" -> 0 [] d = "->" -> 1 [] OTHER -> 2
RelSaid(o, r, x, env, p) ==
  LET js == SemKids(o, r, "KinematicJoint")
      e == o[r].e
  IN /\ e # None
     /\ IF x.ref = "world" THEN o[e].k = "node" /\ o[e].n = "world" /\ o[e].p = None
        ELSE o[e].k = "node" /\ o[e].n = x.ref /\ o[e].p = p
     /\ o[r].dir = Dir(x.d)
     /\ Len(js) = 1 /\ SemCount(o, r) = 1 /\ o[r].sv = js[1]
     /\ AttrS(o, js[1], "joint_type") = x.t
     /\ AttrV(o, js[1], "axis") = Nums(env, x.axis)
     /\ PoseSaid(o, js[1], x.pose, env)
     /\ IF x.pose = <<>> THEN o[r].w = None
        ELSE /\ o[r].w > 0
             /\ o[o[r].w].k = "val"
             /\ NearAll(o[o[r].w].v, Pose(o, SemKids(o, js[1], "RigidTransformation")[1]))
JointSaid(o, j, x, env) ==
  LET rs == KidsOf(o, j, "rel") IN
  Len(rs) = Len(x.rels) /\ \A i \in DOMAIN rs : RelSaid(o, rs[i], x.rels[i], env, o[j].p)

(* an edge made for a reference *)
RefEdge(o, j) ==
  LET rs == Range2(KidsOf(o, j, "rel")) IN
  /\ \A r \in rs : KidsOf(o, r, "sem") = <<>>
  /\ \E r \in rs : o[r].dir = 0
  /\ Cardinality({o[r].e : r \in {q \in rs : o[q].dir # 0}}) = 1

RECURSIVE ItemsSaid(_, _, _, _, _)
(* what is below node i, against the items described there *)
ItemsSaid(o, i, items, env, sems) ==
  LET ns == SubNodes(o, i)
      xs == SelectSeq(items, LAMBDA x : x.k \in {"graph", "link", "ambient", "sensor", "actuator"})
      es == KidsOf(o, i, "edge")
      js == SelectSeq(items, LAMBDA x : x.k = "joint")
      ej == SelectSeq(es, LAMBDA e : \E x \in Range2(js) : x.n = o[e].n)
      er == SelectSeq(es, LAMBDA e : e \notin Range2(ej))
      Said(n, x) ==
        CASE x.k = "graph" -> Say(\A s \in Range2(SemKids(o, n, "KinematicGraphDefinition")) : Named(o, s, x.n), "graph")
                              \cup ItemsSaid(o, n, x.items, env, <<"KinematicGraphDefinition">>)
          [] x.k = "link" -> LinkSaid(o, n, x, env)
          [] x.k = "ambient" -> ItemsSaid(o, n, x.items, env, <<>>)
          [] OTHER -> Say(o[n].ch = <<>>, "ambient")
  IN Say([j \in DOMAIN KidsOf(o, i, "sem") |-> o[KidsOf(o, i, "sem")[j]].y] = sems, "sems")
     \cup Say(KidsOf(o, i, "val") = <<>> /\ \A e \in Range2(er) : RefEdge(o, e), "extra")
     \cup (IF ~NamesAre(o, ns, [j \in DOMAIN xs |-> xs[j].n]) THEN {"items"}
           ELSE UNION {Said(ns[j], xs[j]) : j \in DOMAIN ns})
     \cup (IF ~NamesAre(o, ej, [j \in DOMAIN js |-> js[j].n]) THEN {"joint"}
           ELSE UNION {Say(JointSaid(o, ej[j], js[j], env), "joint") : j \in DOMAIN ej})

Described(o, d, root, n0) ==
  LET env == FlattenSeq([i \in DOMAIN d.items |-> IF d.items[i].k = "params" THEN d.items[i].ps ELSE <<>>])
      new == {i \in DOMAIN o : i > n0}
  IN IF root \notin new THEN {"entity"}
     ELSE Say(o[root].k = "node" /\ o[root].n = d.n /\ o[root].p = None /\
              \A s \in Range2(SemKids(o, root, "CognitiveEntity")) : Named(o, s, d.n), "entity")
          \cup ItemsSaid(o, root, d.items, env, <<"CognitiveEntity">>)
          \cup Say(\A i \in new : \/ RootAbove(o, i) = root
                                 \/ o[RootAbove(o, i)].n = "world"
                                 \/ \E r \in new : o[r].k = "rel" /\ o[r].w = i, "extra")

DoRead(s, e) ==
  LET L == Recorded(s.o, e)
      c == Described(L, e.a.d, e.a.root, Len(s.o)) \cup
           Say(\A i \in DOMAIN s.o : L[i] = s.o[i], "frame")
  IN {R(IF c = {} THEN "ok" ELSE "not:" \o FoldLeft(LAMBDA x, y : x \o "." \o y, "", SetToSeq(c)),
        IF c = {} THEN Resync(s, L, s.mem) ELSE s, <<>>)}

Observe(s, e) ==
  CASE e.op = "sdf"  -> DoSdf(s, e.a)
    [] e.op = "read" -> DoRead(s, e)
    [] e.op = "ent"  -> DoEntropy(s, e.a)
    [] OTHER         -> ObserveBase(s, e)
=============================================================================
