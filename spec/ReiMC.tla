------------------------------- MODULE ReiMC --------------------------------
(***************************************************************************)
(* Exhaustive exploration of small systems.  Next makes every call of a    *)
(* small alphabet with the step relation of ReiSteps; TLC checks the       *)
(* invariants and the step properties on every reachable state and         *)
(* prints every transition, so that the harness can walk the real library  *)
(* over all of them (harness/tour.py).                                     *)
(*                                                                         *)
(* Conf chooses the system:                                                *)
(*   hier   NEls elements of given names and identifiers; adding, removing *)
(*          in every way, deregistering, adding and removing many          *)
(*   plain  the same with different identifiers, only added and             *)
(*          deregistered: all forests                                      *)
(*   flat   a context with two nodes, two edges and a value; up to NRel    *)
(*          connections of every direction, with and without the value     *)
(*   conn   two edges of one name, two nodes, up to NRel connections made, *)
(*          taken back, removed and moved; ports removed                   *)
(*   hand   the same with relations and ports that the program makes       *)
(*   fac    up to NEls elements made by factories, two times               *)
(*   web    three nodes with an edge each, up to NRel connections          *)
(*   attr   one value node and one semantic element                        *)
(*   kin    an entity of two graphs, one in the other, of two links each;  *)
(*          up to NRel joints made and taken back                          *)
(*                                                                         *)
(* The view leaves out numbers in the container, addition counts and       *)
(* timestamps, on which no call depends; that makes the state space finite.*)
(***************************************************************************)
EXTENDS ReiSteps

CONSTANTS Conf, NEls, NRel, Export

VARIABLES s, last, clk
vars == <<s, last, clk>>

(* ------------------------- starting points ------------------------------ *)
Mk(k, n, u) == [Blank EXCEPT !.k = k, !.n = n, !.u = u, !.ck = IF k \in {"node", "edge"} THEN 1 ELSE 0,
                             !.y = CASE k = "node" -> "HypergraphNode" [] k = "edge" -> "HypergraphEdge"
                                     [] k = "val" -> "ValueNode" [] OTHER -> "SemanticValueNode"]
(* 1, 2 and 4 share a name, 1 and 3 an identifier *)
HierEls == <<Mk("node", "n", "a"), Mk("node", "n", "b"), Mk("node", "m", "a"), Mk("edge", "n", "c"), Mk("node", "m", "d")>>
ConnEls == <<Mk("edge", "k", "a"), Mk("edge", "k", "b"), Mk("node", "n", "c"), Mk("node", "n", "d"), [Mk("val", "w", "e") EXCEPT !.v = <<2>>]>>
UnderEls == <<Mk("edge", "k", "a"), Mk("node", "n", "c"), Mk("node", "m", "d")>>
WebEls == <<Mk("node", "a", "1"), Mk("node", "b", "2"), Mk("node", "c", "3"), Mk("edge", "j", "4"), Mk("edge", "k", "5"), Mk("edge", "l", "6"),
            [Mk("val", "w", "7") EXCEPT !.v = <<2, 1>>], [Mk("val", "z", "8") EXCEPT !.v = <<1, 0 - 1>>]>>
WebWeight(i) == CASE i % 4 = 0 -> 7 [] i % 4 = 2 -> 8 [] OTHER -> 0
AttrEls == <<[Mk("val", "w", "a") EXCEPT !.v = <<1, 2>>], Mk("sem", "x", "b")>>
PlainEls == [i \in DOMAIN HierEls |-> [HierEls[i] EXCEPT !.u = ToString(i)]]
FlatEls == <<Mk("node", "ctx", "0"), Mk("node", "n", "1"), Mk("node", "m", "2"), Mk("edge", "k", "3"), Mk("edge", "l", "4"),
             [Mk("val", "w", "5") EXCEPT !.v = <<2, 1>>]>>
Sm(y, n, at) == [Mk("sem", n, "s" \o n) EXCEPT !.y = y, !.at = at]
At(k, x) == [k |-> k, s |-> x, v |-> <<>>]
(* the joints: of edge e with what it connects *)
KinEnds == <<<<16, 1>>, <<16, 6>>, <<16, 8>>, <<16, 10>>, <<17, 1>>, <<17, 6>>, <<17, 8>>, <<17, 10>>, <<18, 12>>, <<18, 14>>>>
JType(i) == CASE i % 3 = 0 -> "fix" [] i % 3 = 1 -> "rev" [] OTHER -> "tr"
KinEls ==
  <<Mk("node", "world", "1"), Mk("node", "ent", "2"), Sm("CognitiveEntity", "ent", <<At("name", "ent")>>),
    Mk("node", "g", "4"), Sm("KinematicGraphDefinition", "g", <<At("name", "g")>>),
    Mk("node", "a", "6"), Sm("KinematicLink", "a", <<At("name", "a")>>),
    Mk("node", "b", "8"), Sm("KinematicLink", "b", <<At("name", "b")>>),
    Mk("node", "h", "10"), Sm("KinematicGraphDefinition", "h", <<At("name", "h")>>),
    Mk("node", "c", "12"), Sm("KinematicLink", "c", <<At("name", "c")>>),
    Mk("node", "d", "14"), Sm("KinematicLink", "d", <<At("name", "d")>>),
    Mk("edge", "j", "16"), Mk("edge", "k", "17"), Mk("edge", "l", "18"), Mk("node", "store", "19")>>
  \o [i \in DOMAIN KinEnds |-> Sm("KinematicJoint", "t" \o ToString(i), <<At("joint_type", JType(i))>>)]
KinPar == <<0, 0, 2, 2, 4, 4, 6, 4, 8, 4, 10, 10, 12, 10, 14, 4, 4, 10, 0>> \o [i \in DOMAIN KinEnds |-> 19]
StartEls == CASE Conf = "hier" -> SubSeq(HierEls, 1, NEls)
              [] Conf \in {"conn", "hand"} -> ConnEls
              [] Conf = "under" -> UnderEls
              [] Conf = "plain" -> SubSeq(PlainEls, 1, NEls)
              [] Conf = "flat" -> FlatEls
              [] Conf = "web" -> WebEls
              [] Conf = "fac"  -> <<>>
              [] Conf = "attr" -> AttrEls
              [] Conf = "kin" -> KinEls

RECURSIVE Make(_, _)
Make(st, q) == IF q = <<>> THEN st ELSE Make(New(st, Head(q), "", <<0>>), Tail(q))

(* the members of a flat context are in it from the start *)
RECURSIVE Fill(_, _)
Fill(st, i) == IF i > Len(FlatEls) THEN st ELSE Fill(Attach(st, 1, i, <<0>>), i + 1)

RECURSIVE Place(_, _)
Place(st, i) == IF i > Len(KinPar) THEN st
                ELSE Place(IF KinPar[i] = 0 THEN st ELSE Attach(st, KinPar[i], i, <<0>>), i + 1)

(* the lines of the sample graph: any two of the seven points are on exactly one *)
ASSUME FanoPlane == /\ \A l \in Range2(FanoLines) : Cardinality(Range2(l)) = 3 /\ Range2(l) \subseteq 0..6
                    /\ \A x, y \in 0..6 : x # y => Cardinality({i \in DOMAIN FanoLines : {x, y} \subseteq Range2(FanoLines[i])}) = 1

(* ------------------------- calls ---------------------------------------- *)
S(x) == ToString(x)
C(op, a, tag) == [op |-> op, a |-> a, tag |-> op \o tag]
D == {i \in DOMAIN s.o : TRUE}
Of(ks) == {i \in D : s.o[i].k \in ks}
Containers == Of({"node", "edge"})

Adds(P, X) == {C("add", [p |-> p, c |-> c], "." \o S(p) \o "." \o S(c)) : p \in P, c \in X}
Rm(p, n, u, lim) == C("rm", [p |-> p, n |-> n, u |-> u, lim |-> lim], "." \o S(p) \o "." \o n \o "." \o u \o "." \o S(lim))
RmIt(p, i) == [op |-> "rm", a |-> [p |-> p, n |-> "", u |-> s.o[i].u, lim |-> 0 - 1], tag |-> "rmi." \o S(p) \o "." \o S(i)]
Deregs(X) == {C("dereg", [c |-> c], "." \o S(c)) : c \in X}

HierCalls ==
  LET nm == {"n", "m"}  id == {s.o[i].u : i \in D} IN
  Adds(D, D) \cup Deregs(D)
  \cup {Rm(p, "", u, 0 - 1) : p \in D, u \in id}
  \cup {Rm(p, n, "", l) : p \in D, n \in nm, l \in {0 - 1, 1}}
  \cup {Rm(p, n, u, 0 - 1) : p \in D, n \in nm, u \in id}
  \cup {Rm(p, "", "", 0 - 1) : p \in D}
  \cup {C("addm", [p |-> p, cs |-> <<x, y>>], "." \o S(p) \o "." \o S(x) \o "." \o S(y)) : p \in D, x \in D, y \in D}
  \cup {C("rmm", [p |-> p, qs |-> <<[n |-> n, u |-> ""], [n |-> "", u |-> u]>>], "." \o S(p) \o "." \o n \o "." \o u)
        : p \in D, n \in nm, u \in id}

PlainCalls == Adds(D, D) \cup Deregs(D)
FlatCalls ==
  IF Cardinality(Of({"rel"})) >= NRel THEN {}
  ELSE {C("conn", [e |-> e, x |-> x, w |-> w, dir |-> d, sv |-> 0], "." \o S(e) \o "." \o S(x) \o "." \o S(w) \o "." \o S(d))
        : e \in {4, 5}, x \in {2, 3}, w \in {0, 6}, d \in {0, 1, 2}}
(* connections: what is given with the n-th one is fixed, to keep it small *)
Given(N, x) == [w |-> IF N % 3 = 0 /\ Conf # "under" THEN 5 ELSE 0, dir |-> (N + x) % 3]
Conns(room) ==
  LET N == Len(s.o) IN
  IF ~room THEN {}
  ELSE {C("conn", [e |-> e, x |-> x, w |-> Given(N, x).w, dir |-> Given(N, x).dir, sv |-> 0],
          "." \o S(e) \o "." \o S(x) \o "." \o S(Given(N, x).w) \o "." \o S(Given(N, x).dir))
        : e \in Of({"edge"}), x \in Of({"node", "edge"})}
Discs == {C("disc", [x |-> x, r |-> r], "." \o S(x) \o "." \o S(r)) : x \in Of({"node", "edge"}), r \in Of({"rel"})}
RmRels == {RmIt(e, r) : e \in Of({"edge"}), r \in Of({"rel"})}
RmPorts == {RmIt(s.o[r].p, r) : r \in {r \in Of({"port"}) : s.o[r].p # 0}}
ConnCalls ==
  Conns(Cardinality(Of({"rel"})) < NRel) \cup Discs \cup RmRels
  \cup Adds(Of({"edge"}), Of({"rel"})) \cup RmPorts
HandCalls ==
  LET N == Len(s.o)  rels == Of({"rel"})  ends == Of({"node", "edge"}) IN
  Conns(Cardinality(rels) < NRel)
  \cup (IF Cardinality(rels) < NRel
        THEN {C("newrel", [n |-> "h", u |-> "r" \o S(N), og |-> "", x |-> x, w |-> 0, dir |-> 1, sv |-> 0], "." \o S(x))
              : x \in {i \in ends : i <= 3}}
        ELSE {})
  \cup Discs
  \cup (IF N < 5 + 2 * NRel
        THEN {C("port", [x |-> x, r |-> r], "." \o S(x) \o "." \o S(r)) : x \in {i \in ends : i \in {2, 3}},
              r \in {r \in rels : s.mk[r] = ""}}
        ELSE {})
  \cup RmRels \cup Adds(Of({"edge"}), rels) \cup Adds({1}, {2, 3}) \cup RmPorts \cup Deregs(Of({"edge", "node"}))

(* nodes and edges below relations *)
UnderCalls ==
  LET N == Len(s.o)  rels == Of({"rel"}) IN
  Conns(Cardinality(rels) < NRel)
  \cup (IF N < NEls THEN Adds(rels, {1, 2, 3}) ELSE {})
  \cup Adds({1}, {2, 3} \cup rels) \cup Adds({2}, {1, 3}) \cup Deregs({1, 2, 3})
  \cup {RmIt(s.o[i].p, i) : i \in {i \in Of({"rel", "port"}) \cup {2, 3} : s.o[i].p # 0}}
  \cup {C("disc", [x |-> x, r |-> r], "." \o S(x) \o "." \o S(r)) : x \in {1, 2, 3}, r \in rels}

(* every edge may end at every node and at the second edge *)
WebCalls ==
  IF Cardinality(Of({"rel"})) >= NRel THEN {}
  ELSE LET N == Len(s.o) IN
       {C("conn", [e |-> e, x |-> x, w |-> WebWeight(N + e + x), dir |-> (N + x) % 3, sv |-> 0],
          "." \o S(e) \o "." \o S(x) \o "." \o S(WebWeight(N + e + x)) \o "." \o S((N + x) % 3))
        : e \in {4, 5, 6}, x \in {1, 2, 3, 5}}

Fac == [n |-> "f", ck |-> 1]
FacCalls ==
  LET N == Len(s.o)  pars == {0} \cup Containers  f == Fac IN
  (IF N < NEls
   THEN {C("fnode", [f |-> f, n |-> n, p |-> p], "." \o n \o "." \o S(p)) : n \in {"n", "m"}, p \in pars}
        \cup {C("fedge", [f |-> f, n |-> "n", p |-> p, a |-> [mode |-> "create", has |-> FALSE]], "." \o S(p)) : p \in Containers}
        \cup {C("fval", [f |-> f, n |-> "n", p |-> p, v |-> <<3>>], "." \o S(p)) : p \in pars}
        \cup {C("fsem", [f |-> f, canon |-> c, n |-> "n", p |-> p, at |-> t, v |-> <<>>, hasv |-> FALSE],
                "." \o c \o "." \o S(p) \o "." \o S(Len(t)))
              : c \in {"material", "nothing"}, p \in Containers, t \in {<<>>, <<[k |-> "a", s |-> "", v |-> <<100>>]>>}}
   ELSE {})
  \cup (IF N + 1 < NEls
        THEN {C("fnodes", [f |-> f, ns |-> <<x, y>>, p |-> p], "." \o x \o "." \o y \o "." \o S(p))
              : x \in {"n", "m"}, y \in {"n"}, p \in pars}
        ELSE {})
  \cup {RmIt(s.o[i].p, i) : i \in {i \in D : s.o[i].p # 0 /\ s.o[i].k \notin {"node", "edge"}}}
  \cup Deregs({i \in Containers : s.o[i].p # 0})
  \cup Adds({i \in Containers : i <= 1}, {i \in D : i > 1})
  \cup (IF clk = 0 THEN {C("tick", [x |-> 1], "")} ELSE {})

Vals == {<<>>, <<0>>, <<0 - 1, 2>>}
AttrCalls ==
  {C("vset", [i |-> 1, j |-> j, x |-> x], "." \o S(j) \o "." \o S(x)) : j \in (0 - 3)..2, x \in {0, 1}}
  \cup {C("vslice", [i |-> 1, j |-> j, h |-> h, v |-> v], "." \o S(j) \o "." \o S(h) \o "." \o S(v))
        : j \in 0..2, h \in 0..3, v \in {v \in Vals : \A r \in DoValSlice(s, 1, 0, 0, v) : Len(r.s.o[1].v) <= 2}}
  \cup {C("vall", [i |-> 1, v |-> v], "." \o S(v)) : v \in Vals}
  \cup {C("aset", [i |-> 2, x |-> [k |-> k, s |-> v, v |-> <<>>]], "." \o k \o "." \o v) : k \in {"a", "b"}, v \in {"x", "y"}}
  \cup {C("adel", [i |-> 2, k |-> k], "." \o k) : k \in {"a", "b"}}

(* kin: joints one after the other; one is taken back in two steps *)
Joints(st) == {r \in DOMAIN st.o : st.o[r].k = "rel" /\ st.o[r].p # None}
Whole(st) == \A r \in Joints(st) : PortsFor(st.o, st.o[r].e, r) # <<>>
Joined(st, e, x) == {r \in Joints(st) : st.o[r].p = e /\ st.o[r].e = x}
DirsOf(i) == CASE i \in {1, 5, 9} -> {0} [] i \in {4, 8} -> {1} [] i = 10 -> {0, 1} [] OTHER -> {0, 1, 2}
KinCalls ==
  LET Con(i, d) == C("conn", [e |-> KinEnds[i][1], x |-> KinEnds[i][2], w |-> 0, dir |-> d, sv |-> 19 + i],
                     "." \o S(KinEnds[i][1]) \o "." \o S(KinEnds[i][2]) \o ".0." \o S(d) \o "." \o S(19 + i))
      Back(r) == "." \o S(s.o[r].p) \o "." \o S(s.o[r].e)
  IN IF ~Whole(s)
     THEN {[op |-> "rm", a |-> [p |-> s.o[r].p, n |-> "", u |-> s.o[r].u, lim |-> 0 - 1], tag |-> "krm" \o Back(r)]
           : r \in {r \in Joints(s) : PortsFor(s.o, s.o[r].e, r) = <<>>}}
     ELSE {[op |-> "disc", a |-> [x |-> s.o[r].e, r |-> r], tag |-> "kdisc" \o Back(r)] : r \in Joints(s)}
          \cup (IF Cardinality(Joints(s)) >= NRel THEN {}
                ELSE UNION {{Con(i, d) : d \in DirsOf(i)}
                            : i \in {i \in DOMAIN KinEnds : Joined(s, KinEnds[i][1], KinEnds[i][2]) = {}}})

Calls == CASE Conf = "hier" -> HierCalls
           [] Conf = "plain" -> PlainCalls
           [] Conf = "flat" -> FlatCalls
           [] Conf = "conn" -> ConnCalls
           [] Conf = "web" -> WebCalls
           [] Conf = "hand" -> HandCalls
           [] Conf = "under" -> UnderCalls
           [] Conf = "fac"  -> FacCalls
           [] Conf = "attr" -> AttrCalls
           [] Conf = "kin" -> KinCalls

(* Identifiers the library chooses.  Which it chooses is not promised; this
   exploration takes them to be made from the keys, one to one. *)
Made(c, now) ==
  LET a == c.a IN
  CASE c.op = "fnode" -> <<IdKey(a.f, FullName(s, a.p, a.n), now)>>
    [] c.op = "fnodes" -> [i \in DOMAIN a.ns |-> IdKey(a.f, FullName(s, a.p, a.ns[i]), now)]
    [] c.op \in {"fedge", "fval", "fsem"} -> <<IdKey(a.f, a.n, now)>>
    [] c.op = "conn" -> <<RelKey(s, a.e, a.x), PortKey(s, a.e, a.x, now)>>
    [] c.op = "port" -> <<HandKey(s, a.x, a.r)>>
    [] c.op = "add" -> IF Gets(s, a.p, a.c) THEN <<HandKey(s, a.c, a.p)>> ELSE <<>>
    [] OTHER -> <<>>
Taken(c, m) ==
  LET a == c.a IN
  CASE c.op \in {"fnode", "fnodes", "fedge", "fval", "fsem"} -> a.p # 0 /\ \E i \in DOMAIN m : HasUid(s.o, a.p, m[i])
    [] c.op = "conn" -> HasUid(s.o, a.e, m[1]) \/ HasUid(s.o, a.x, m[2])
    [] c.op = "port" -> HasUid(s.o, a.x, m[1])
    [] c.op = "add" -> m # <<>> /\ HasUid(s.o, a.c, m[1])
    [] OTHER -> FALSE
Results(c) ==
  LET now == <<clk>>
      N == Len(s.o)
      m == Made(c, now)
      L == [i \in 1..(N + Len(m)) |-> IF i <= N THEN Blank ELSE [Blank EXCEPT !.u = m[i - N], !.n = "r" \o S(i)]]
      all == Allowed(s, [op |-> c.op, a |-> c.a, now |-> now], L)
  IN IF c.op = "tick" THEN {R("ok", s, <<>>)}
     ELSE IF Taken(c, m) THEN {r \in all : r.out # "ok"} ELSE all

(* ------------------------- what tells states apart ----------------------- *)
Cat(q) == FoldLeft(LAMBDA a, b : a \o ";" \o b, "", q)
Attrs(at) == Cat([j \in DOMAIN at |-> at[j].k \o "=" \o at[j].s])
Image(st) == ToString([i \in DOMAIN st.o |-> <<st.o[i].ch, st.o[i].e, st.o[i].dir, st.o[i].w, st.o[i].v>>])
Kinds(st) == Cat([i \in DOMAIN st.o |-> st.o[i].k \o "." \o st.o[i].n])
KinKey(st) ==
  ToString([e \in {16, 17, 18} |-> LET q == SubRels(st.o, e) IN [i \in DOMAIN q |-> <<st.o[q[i]].e, st.o[q[i]].dir>>]])
  \o ToString([x \in {1, 6, 8, 10, 12, 14} |-> LET q == KidsOf(st.o, x, "port") IN [i \in DOMAIN q |-> st.o[st.o[q[i]].e].p]])
Key(st, ck) ==
  CASE Conf \in {"hier", "plain"} -> ToString([i \in DOMAIN st.o |-> st.o[i].ch])
    [] Conf \in {"flat", "web"} -> Image(st)
    [] Conf = "conn" -> Image(st) \o Cat([i \in DOMAIN st.o |-> IF st.o[i].k = "rel" THEN st.mk[i] ELSE ""])
    [] Conf \in {"hand", "under"} -> Image(st) \o Cat(st.mk)
    [] Conf = "fac"  -> Image(st) \o Kinds(st) \o Cat(st.mk) \o S(ck)
    [] Conf = "attr" -> ToString(st.o[1].v) \o Attrs(st.o[2].at)
    [] Conf = "kin"  -> KinKey(st)
View == Key(s, clk)

(* ------------------------- behaviours ------------------------------------ *)
Init == /\ s = CASE Conf = "flat" -> Fill(Make(Empty, StartEls), 2)
                  [] Conf = "web" -> Attach(Attach(Attach(Make(Empty, StartEls), 1, 4, <<0>>), 2, 5, <<0>>), 3, 6, <<0>>)
                  [] Conf = "kin" -> Place(Make(Empty, StartEls), 1)
                  [] OTHER -> Make(Empty, StartEls)
        /\ clk = 0
        /\ last = [op |-> "none", a |-> <<>>, out |-> "ok", res |-> <<>>]

Next == \E c \in Calls : \E r \in Results(c) :
          /\ s' = r.s
          /\ clk' = IF c.op = "tick" \/ Conf \in {"hier", "plain", "flat", "web", "conn", "hand", "kin", "under"} THEN clk + 1 ELSE clk
          /\ last' = [op |-> c.op, a |-> c.a, out |-> r.out, res |-> r.res]
          /\ IF Export THEN PrintT("T|" \o Key(s, clk) \o "|" \o c.tag \o "|" \o r.out \o "|" \o Key(s', clk')) ELSE TRUE

(* conn, hand: identities of ports contain the time of the connection, and
   all calls are made at different times; so those of connections do not
   matter (fac explores equal times). *)
Spec == Init /\ [][Next]_vars

(* ------------------------- properties ------------------------------------ *)
InvForest == Forest(s.o)
InvNames == NamesMirror(s.o)
InvDepth == DepthMirror(s.o)
InvCounted == Counted(s.o)
InvNumbered == Numbered(s.o)
InvUids == UniqueUids(s.o)
InvPorts == PortsPaired(s.o)
(* the export of a kinematic model names only what it contains: the joints'
   links are exported (or the world), and so are the joints that the poses of
   links are relative to.  A graph that is referred to needs a link nothing
   carries. *)
KinAll == AllOf(s.o, <<7, 9>>, [i \in 1..8 |-> 19 + i], "", None)
KinPre == \A p \in Range2(KinAll.j) : IsGraph(s.o, s.o[p[1][2]].e) => Canon(s.o, s.o[p[1][2]].e) # {}
InvKin ==
  Conf = "kin" /\ Whole(s) =>
    LET all == KinAll
        names == {Pre2(x[2], s.o[x[1]].n) : x \in Range2(all.l)} \cup {"world"}
        js == UNION {JointAlts(s.o, x[1], x[2], 1) : x \in Range2(all.j)}
    IN KinPre =>
       /\ \A x \in Range2(all.j) : JointAlts(s.o, x[1], x[2], 1) # {}
       /\ \A j \in js : {j.par, j.ch} \subseteq names
       /\ \A x \in Range2(all.l) : LET f == Frames(s.o, s.o[x[1]].p, x[2], x[3]) IN
            f # {} /\ f \subseteq {j.n : j \in js} \cup {""}
(* a relation traversal visits the relations within its depth, once each *)
InvHyper ==
  Conf = "web" =>
    \A st \in 1..6, lim \in {1, 2, 3} :
      LET q == HyperSeq(s.o, <<<<st, 0>>>>, {}, lim) IN
      /\ Range2(q) = RelsWithin(s.o, {st}, lim)
      /\ Cardinality(Range2(q)) = Len(q)
      /\ lim = 3 => Range2(HyperSeq(s.o, <<<<st, 0>>>>, {}, 0 - 1)) = RelsWithin(s.o, {st}, 8)
(* every call has an outcome *)
InvTotal == \A c \in Calls : Results(c) # {}

Single == {"new", "add", "rm", "dereg", "conn", "disc", "port", "newrel", "fnode", "fedge", "fval", "fsem", "vset", "vslice", "aset", "adel"}
(* a rejected call changes nothing *)
RejectKeeps == [][last'.out # "ok" /\ last'.op \in Single => s' = s]_vars
(* elements are never lost: they keep their kind, identifier, name and origin *)
NothingLost == [][Len(s'.o) >= Len(s.o) /\ \A i \in DOMAIN s.o :
                    s'.o[i].k = s.o[i].k /\ s'.o[i].u = s.o[i].u /\ s'.o[i].n = s.o[i].n /\ s'.o[i].og = s.o[i].og]_vars
(* timestamps: only moved subtrees are stamped, with the current time *)
Moved == {i \in DOMAIN s.o : s'.o[i].p # s.o[i].p} \cup (IF last'.op \in {"add", "addm"} /\ last'.out = "ok"
                                                        THEN {i \in DOMAIN s.o : s'.o[i].c # s.o[i].c} ELSE {})
Stamped == [][\A i \in DOMAIN s.o :
                 IF s'.o[i].t # s.o[i].t
                 THEN s'.o[i].t = clk /\ (AncSelf(s'.o, i) \cup AncSelf(s.o, i)) \cap Moved # {}
                 ELSE TRUE]_vars
NeverBack == [][\A i \in DOMAIN s.o : s'.o[i].t >= s.o[i].t]_vars
(* an accepted addition makes the element the last child, and nothing else moves *)
AddsLast == [][last'.op = "add" /\ last'.out = "ok" =>
                 LET p == last'.a.p  c == last'.a.c IN
                 /\ s'.o[c].p = p /\ s'.o[p].ch[Len(s'.o[p].ch)] = c
                 /\ \A i \in DOMAIN s.o \ {c} : s'.o[i].p = s.o[i].p
                 /\ \A i \in DOMAIN s.o \ {c} : SelectSeq(s'.o[i].ch, LAMBDA x : x # c) = SelectSeq(s.o[i].ch, LAMBDA x : x # c)
                 /\ s'.o[c].ch = IF Gets(s, p, c) THEN Append(s.o[c].ch, Len(s'.o)) ELSE s.o[c].ch]_vars
(* removal returns what it removed; the others keep their order *)
RemovesResult == [][last'.op \in {"rm", "rmm"} /\ last'.out = "ok" =>
                 LET p == last'.a.p IN
                 /\ \A i \in Range2(last'.res) : s.o[i].p = p /\ s'.o[i].p = None
                 /\ s'.o[p].ch = SelectSeq(s.o[p].ch, LAMBDA x : x \notin Range2(last'.res))
                 /\ \A i \in DOMAIN s.o \ {p} : s'.o[i].ch = s.o[i].ch]_vars
(* a connection made is seen from both ends, and taken back completely *)
Connects == [][last'.op = "conn" /\ last'.out = "ok" =>
                 LET r == Len(s.o) + 1 IN
                 /\ SubRels(s'.o, last'.a.e) = Append(SubRels(s.o, last'.a.e), r)
                 /\ PortsFor(s'.o, last'.a.x, r) = <<r + 1>>
                 /\ s'.o[r].e = last'.a.x /\ s'.o[r].dir = last'.a.dir /\ s'.o[r].w = last'.a.w]_vars
Disconnects == [][last'.op = "disc" /\ last'.out = "ok" =>
                 /\ Len(PortsFor(s'.o, last'.a.x, last'.a.r)) = Len(PortsFor(s.o, last'.a.x, last'.a.r)) - 1
                 /\ s'.o[last'.a.r] = s.o[last'.a.r]]_vars
=============================================================================
