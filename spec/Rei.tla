--------------------------------- MODULE Rei ---------------------------------
(***************************************************************************)
(* The state of a rei_hypergraph program and one operator per public      *)
(* structural operation.                                                   *)
(*                                                                         *)
(* A state s is a record                                                   *)
(*   s.o   sequence of elements; the index of an element is its identity   *)
(*   s.h   s.h[i]: how many additions container i has seen (hidden)        *)
(*   s.mk  s.mk[i]: key from which the identity of i was made, "" if the   *)
(*         program chose it (hidden)                                       *)
(*   s.mem what earlier events produced and later events refer to          *)
(*         (messages, decoded copies, identities; see ReiObs)              *)
(*                                                                         *)
(* An element is a record with                                             *)
(*   k  kind: node edge rel port val sem        y  class of a sem element  *)
(*   n  name    u  identifier (token)    ck clock (0: none)                *)
(*   p  parent (0: none)   ch children in order   cnt reported count       *)
(*   d  depth   q qualified name   c number in container   t timestamp     *)
(*   e  endpoint (rel: connected element, port: relation)                  *)
(*   dir direction 0 in 1 out 2 both   w weight value   sv semantic value  *)
(*   v  values (val)   at attributes (sem), ordered by key                 *)
(*   og the qualified name it was made under                               *)
(*                                                                         *)
(* Every operation is an operator that returns the SET of allowed results  *)
(* [out, s, res]: outcome, successor state and returned elements.  Where   *)
(* the library's behaviour is not promised (see the comments) the set has  *)
(* more than one member.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

None == 0
Conceptual(k) == k \in {"node", "edge"}
Elem(k) == k \in {"node", "edge"}

Ids(s) == DOMAIN s.o
Range2(q) == {q[i] : i \in DOMAIN q}
Kids(o, i) == Range2(o[i].ch)

(* ------------------------- tree helpers ------------------------------- *)
RECURSIVE AncSelf(_, _)
AncSelf(o, i) == IF i = None THEN {} ELSE {i} \cup AncSelf(o, o[i].p)

RECURSIVE QName(_, _)
QName(o, i) == IF o[i].p = None THEN o[i].n ELSE QName(o, o[i].p) \o "/" \o o[i].n

Depth(o, i) == Cardinality(AncSelf(o, i)) - 1

RECURSIVE Subtree(_, _)
Subtree(o, i) == {i} \cup UNION {Subtree(o, c) : c \in Kids(o, i)}

RECURSIVE Root(_, _)
Root(o, i) == IF o[i].p = None THEN i ELSE Root(o, o[i].p)

KidsOf(o, i, kind) == SelectSeq(o[i].ch, LAMBDA c : o[c].k = kind)
KidsNamed(o, i, name) == SelectSeq(o[i].ch, LAMBDA c : o[c].n = name)
HasUid(o, p, u) == \E c \in Kids(o, p) : o[c].u = u

(* position-dependent attributes of a whole subtree are renewed together *)
Refresh(o, i, now) ==
  LET S == Subtree(o, i) IN
  [j \in DOMAIN o |->
     IF j \in S
     THEN [o[j] EXCEPT !.d = Depth(o, j), !.q = QName(o, j),
                       !.t = IF o[j].ck = None THEN @ ELSE now[o[j].ck]]
     ELSE o[j]]

(* a relation whose endpoint was below it, and is taken out, has none *)
Unlink(o, c) ==
  IF o[c].p = None THEN o
  ELSE LET q == o[c].p IN
       [o EXCEPT ![q].ch = SelectSeq(@, LAMBDA x : x # c), ![q].cnt = @ - 1,
                 ![q].e = IF o[q].k = "rel" /\ @ = c THEN None ELSE @]

(* put c below p (no checks): the last child, with a fresh number *)
Attach(s, p, c, now) ==
  LET o1 == Unlink(s.o, c)
      o2 == [o1 EXCEPT ![p].ch = Append(@, c), ![p].cnt = @ + 1,
                       ![c].p = p, ![c].c = s.h[p]]
  IN [s EXCEPT !.o = Refresh(o2, c, now), !.h = [s.h EXCEPT ![p] = @ + 1]]

Detach(s, c, now) ==
  LET o1 == Unlink(s.o, c)
      o2 == [o1 EXCEPT ![c].p = None]
  IN [s EXCEPT !.o = Refresh(o2, c, now)]

RECURSIVE DetachAll(_, _, _)
DetachAll(s, cs, now) ==
  IF cs = <<>> THEN s ELSE DetachAll(Detach(s, Head(cs), now), Tail(cs), now)

Blank == [k |-> "node", y |-> "", n |-> "", u |-> "", ck |-> 0, p |-> 0, ch |-> <<>>, cnt |-> 0,
          d |-> 0, q |-> "", c |-> 0, t |-> 0 - 1, e |-> 0, dir |-> 0 - 1, w |-> 0, sv |-> 0,
          v |-> <<>>, at |-> <<>>, og |-> ""]

(* a new root; f is its record with position attributes still unset *)
New(s, f, key, now) ==
  [s EXCEPT !.o = Append(@, [f EXCEPT !.q = f.n, !.t = IF f.ck = None THEN 0 - 1 ELSE now[f.ck]]),
            !.h = Append(@, 0), !.mk = Append(@, key)]

Empty == [o |-> <<>>, h |-> <<>>, mk |-> <<>>, mem |-> <<>>]

R(out, s, res) == [out |-> out, s |-> s, res |-> res]

(* ------------------------- structural operations ----------------------- *)
PortsFor(o, x, r) == SelectSeq(o[x].ch, LAMBDA c : o[c].k = "port" /\ o[c].e = r)
(* Nodes and edges that are placed below a relation get a port for it.  The
   identity of the port is made from the names of the two, so that something
   else may have it; the whole operation is rejected then, as it is when there
   is a port for the relation already.  fp: the port's name and identifier as
   chosen by the library. *)
HandKey(s, x, r) == s.o[x].n \o "/" \o s.o[r].n
Gets(s, p, c) == s.o[p].k = "rel" /\ Elem(s.o[c].k)
MustPort(s, p, c) == Gets(s, p, c) /\ PortsFor(s.o, c, p) # <<>>
MayPort(s, p, c) == /\ Gets(s, p, c)
                    /\ \E x \in Kids(s.o, c) :
                         s.mk[x] = HandKey(s, c, p) \/ (s.o[x].k = "port" /\ s.o[s.o[x].e].n = s.o[p].n)
Place2(s, p, c, fp, now) ==
  LET s1 == Attach(s, p, c, now) IN
  IF ~Gets(s, p, c) THEN s1
  ELSE LET s2 == New(s1, [Blank EXCEPT !.k = "port", !.y = "HypergraphPort", !.n = fp.n, !.u = fp.u, !.og = fp.n, !.e = p],
                     HandKey(s, c, p), now)
       IN Attach(s2, c, Len(s2.o), now)

(* add_element / register *)
DoAdd(s, p, c, fp, now) ==
  LET rec == c \in AncSelf(s.o, p)
      dup == HasUid(s.o, p, s.o[c].u)
      mustdup == MustPort(s, p, c)
  IN (IF rec THEN {R("rec", s, <<>>)} ELSE {})
     \cup (IF dup \/ MayPort(s, p, c) \/ mustdup THEN {R("dup", s, <<>>)} ELSE {})
     \cup (IF ~rec /\ ~dup /\ ~mustdup THEN {R("ok", Place2(s, p, c, fp, now), <<>>)} ELSE {})

(* construct an element with a chosen identifier, under a parent if p # 0 *)
DoNew(s, f, p, fp, now) ==
  IF p = None THEN {R("ok", New(s, f, "", now), <<>>)}
  ELSE IF HasUid(s.o, p, f.u) THEN {R("dup", s, <<>>)}
  ELSE LET s1 == New(s, f, "", now) IN {R("ok", Place2(s1, p, Len(s1.o), fp, now), <<>>)}

DoRemoveUid(s, p, u, now) ==
  LET m == SelectSeq(s.o[p].ch, LAMBDA c : s.o[c].u = u) IN
  IF m = <<>> THEN {R("missing", s, <<>>)}
  ELSE {R("ok", Detach(s, m[1], now), <<m[1]>>)}

DoRemoveNameUid(s, p, n, u, now) ==
  LET m == SelectSeq(s.o[p].ch, LAMBDA c : s.o[c].u = u /\ s.o[c].n = n) IN
  IF m = <<>> THEN {R("missing", s, <<>>)}
  ELSE {R("ok", Detach(s, m[1], now), <<m[1]>>)}

(* by name; the caller takes at most lim results of the generator (-1: all).
   A name that is not there may raise or yield nothing. *)
DoRemoveName(s, p, n, lim, now) ==
  LET m == KidsNamed(s.o, p, n)
      k == IF lim < 0 \/ lim > Len(m) THEN Len(m) ELSE lim
      r == SubSeq(m, 1, k)
  IN {R("ok", DetachAll(s, r, now), r)}
     \cup (IF m = <<>> THEN {R("missing", s, <<>>)} ELSE {})

(* the general call: n = "" and u = "" mean not given *)
DoRemove(s, p, n, u, lim, now) ==
  IF lim = 0 THEN {R("ok", s, <<>>)}
  ELSE IF n = "" /\ u = "" THEN {R("invalid", s, <<>>)}
  ELSE IF n = "" THEN DoRemoveUid(s, p, u, now)
  ELSE IF u = "" THEN DoRemoveName(s, p, n, lim, now)
  ELSE DoRemoveNameUid(s, p, n, u, now)

DoDeregister(s, c, now) ==
  IF s.o[c].p = None THEN {R("ok", s, <<>>)}
  ELSE {R("ok", Detach(s, c, now), <<>>)}

RECURSIVE DoAddMany(_, _, _, _)
DoAddMany(s, p, cs, now) ==
  IF cs = <<>> THEN {R("ok", s, <<>>)}
  ELSE IF s.o[Head(cs)].p = p THEN DoAddMany(s, p, Tail(cs), now)
  ELSE UNION {IF r.out = "ok" THEN DoAddMany(r.s, p, Tail(cs), now) ELSE {r}
              : r \in DoAdd(s, p, Head(cs), Blank, now)}

RECURSIVE DoRemoveMany(_, _, _, _, _)
DoRemoveMany(s, p, qs, acc, now) ==
  IF qs = <<>> THEN {R("ok", s, acc)}
  ELSE UNION {IF r.out = "ok" THEN DoRemoveMany(r.s, p, Tail(qs), acc \o r.res, now)
              ELSE {R(r.out, r.s, <<>>)}
              : r \in DoRemove(s, p, Head(qs).n, Head(qs).u, 0 - 1, now)}

(* ------------------------- connections --------------------------------- *)
(* Connect endpoint x to edge e.  fr, fp: names and identifiers of the new
   relation and port as chosen by the library (not promised).  An endpoint
   can be connected once; two endpoints of one name, and two connections
   made by equally named edges at one endpoint at one time, share an
   identifier, and the library may reject the second. *)
RelKey(s, e, x) == s.o[e].n \o "/" \o s.o[x].n
PortKey(s, e, x, now) == s.o[e].n \o "." \o s.o[x].n \o "@" \o ToString(now[s.o[e].ck])

DoConnect(s, e, x, w, dir, sv, fr, fp, now) ==
  LET o == s.o
      mustdup == \E c \in Kids(o, e) : o[c].k = "rel" /\ o[c].e = x /\ s.mk[c] = RelKey(s, e, x)
      maydup  == \/ \E c \in Kids(o, e) : s.mk[c] = RelKey(s, e, x)
                 \/ \E c \in Kids(o, x) :
                      /\ o[c].k = "port"
                      /\ s.mk[c] = PortKey(s, e, x, now)
                         \/ (s.mk[c] = HandKey(s, x, o[c].e) /\ s.mk[o[c].e] = RelKey(s, e, x))
      s1 == New(s, [Blank EXCEPT !.k = "rel", !.y = "HypergraphRelation", !.n = fr.n, !.u = fr.u, !.og = s.o[e].n \o "/" \o fr.n, !.e = x, !.dir = dir,
                                 !.w = w, !.sv = sv], RelKey(s, e, x), now)
      r  == Len(s1.o)
      s2 == New(s1, [Blank EXCEPT !.k = "port", !.y = "HypergraphPort", !.n = fp.n, !.u = fp.u, !.og = fp.n, !.e = r],
                PortKey(s, e, x, now), now)
      s3 == Attach(s2, x, r + 1, now)
      s4 == IF sv = None THEN s3 ELSE Attach(s3, r, sv, now)
      s5 == Attach(s4, e, r, now)
      rec == sv # None /\ sv \in AncSelf(o, e)
  IN (IF mustdup \/ maydup THEN {R("dup", s, <<>>)} ELSE {})
     \cup (IF rec THEN {R("rec", s, <<>>)} ELSE {})
     \cup (IF mustdup \/ rec THEN {} ELSE {R("ok", s5, <<>>)})

(* relations that the program builds itself, and ports for them: a port's
   identity is made from the names of its holder and its relation, and may
   coincide with that of a relation of the same two names *)
DoNewRel(s, a, now) ==
  {R("ok", New(s, [Blank EXCEPT !.k = "rel", !.y = "HypergraphRelation", !.n = a.n, !.u = a.u, !.og = a.og, !.e = a.x, !.dir = a.dir,
                                !.w = a.w, !.sv = a.sv], "", now), <<>>)}

DoPort(s, x, r, fp, now) ==
  LET mustdup == \E c \in Kids(s.o, x) : s.o[c].k = "port" /\ s.o[c].e = r /\ s.mk[c] = HandKey(s, x, r)
      maydup  == \E c \in Kids(s.o, x) : s.mk[c] = HandKey(s, x, r)
      s1 == New(s, [Blank EXCEPT !.k = "port", !.y = "HypergraphPort", !.n = fp.n, !.u = fp.u, !.og = fp.n, !.e = r],
                HandKey(s, x, r), now)
  IN (IF maydup THEN {R("dup", s, <<>>)} ELSE {})
     \cup (IF mustdup THEN {} ELSE {R("ok", Attach(s1, x, Len(s1.o), now), <<>>)})

DoDisconnect(s, x, r, now) ==
  LET m == PortsFor(s.o, x, r) IN
  IF m = <<>> THEN {R("missing", s, <<>>)}
  ELSE {R("ok", Detach(s, m[1], now), <<>>)}

(* connections one after the other; cs: sequence of [x, dir, w, sv], L the
   sequence of element records the library produced (names, identifiers);
   the first rejection ends the call *)
Hint(L, i) == IF i \in DOMAIN L THEN L[i] ELSE Blank
RECURSIVE ConnectAll(_, _, _, _, _)
ConnectAll(s, e, cs, L, now) ==
  IF cs = <<>> THEN {R("ok", s, <<>>)}
  ELSE LET c == Head(cs)
           N == Len(s.o)
       IN UNION {IF r.out = "ok" THEN ConnectAll(r.s, e, Tail(cs), L, now) ELSE {r}
                 : r \in DoConnect(s, e, c.x, c.w, c.dir, c.sv, Hint(L, N + 1), Hint(L, N + 2), now)}

(* ------------------------- factories ----------------------------------- *)
(* f: [n |-> factory name, ck |-> its clock] *)
FullName(s, p, name) == IF p = None THEN name ELSE s.o[p].q \o "/" \o name
IdKey(f, full, now) == f.n \o "/" \o full \o "." \o ToString(now[f.ck])
(* what an element remembers of its making: a node its factory, the others
   the place they were made for, and the time                              *)
Origin(s, f, p, name, now) == FullName(s, p, name) \o "." \o ToString(now[f.ck])

(* place a factory-made element below p.  Elements of one kind made from one
   key share an identifier; whether elements of different kinds do is open. *)
MustDup(s, p, k, key) == \E c \in Kids(s.o, p) : s.mk[c] = key /\ s.o[c].k = k
MayDup(s, p, key) == \E c \in Kids(s.o, p) : s.mk[c] = key
DoMake(s, f, p, key, fp, now) ==
  LET s1 == New(s, f, key, now) IN
  IF p = None THEN {R("ok", s1, <<>>)}
  ELSE (IF MayDup(s, p, key) THEN {R("dup", s, <<>>)} ELSE {})
       \cup (IF MustDup(s, p, f.k, key) THEN {}
             ELSE {R("ok", Place2(s1, p, Len(s1.o), fp, now), <<>>)})

DoGenNode(s, f, name, p, L, now) ==
  LET nw == Hint(L, Len(s.o) + 1) IN
  DoMake(s, [Blank EXCEPT !.k = "node", !.y = "HypergraphNode", !.n = name, !.u = nw.u, !.ck = f.ck,
                    !.og = IdKey(f, name, now)], p,
         IdKey(f, FullName(s, p, name), now), Hint(L, Len(s.o) + 2), now)

RECURSIVE DoGenNodes(_, _, _, _, _, _)
DoGenNodes(s, f, names, p, L, now) ==
  IF names = <<>> THEN {R("ok", s, <<>>)}
  ELSE UNION {IF r.out = "ok" THEN DoGenNodes(r.s, f, Tail(names), p, L, now) ELSE {r}
              : r \in DoGenNode(s, f, Head(names), p, L, now)}

DoGenEdge(s, f, name, p, L, now) ==
  LET nw == Hint(L, Len(s.o) + 1) IN
  DoMake(s, [Blank EXCEPT !.k = "edge", !.y = "HypergraphEdge", !.n = name, !.u = nw.u, !.ck = s.o[p].ck,
                    !.og = Origin(s, f, p, name, now)], p,
         IdKey(f, name, now), Blank, now)

(* the four edge factories; mode and arguments as called:
   nodes  [ns, dir, vals, has]    two [a, b, d1, d2, vals, has]
   dir    [a, b]                  tup [cs] *)
Plain(ns, dir, vals) == [i \in DOMAIN ns |-> [x |-> ns[i], dir |-> dir, w |-> vals[i], sv |-> None]]
NoVals(ns) == [i \in DOMAIN ns |-> None]
FacConns(a) ==
  CASE a.mode = "nodes" -> Plain(a.a, a.d1, IF a.has THEN a.vals ELSE NoVals(a.a))
    [] a.mode = "two"   -> LET vs == IF a.has THEN a.vals ELSE NoVals(a.a) \o NoVals(a.b) IN
                           Plain(a.a, a.d1, vs) \o
                           Plain(a.b, a.d2, SubSeq(vs, Len(a.a) + 1, Len(vs)))
    [] a.mode = "dir"   -> Plain(a.a, 0, NoVals(a.a)) \o Plain(a.b, 1, NoVals(a.b))
    [] a.mode = "tup"   -> a.cs
    [] a.mode = "create" -> <<>>
FacWrongLen(a) == /\ a.has
                  /\ \/ a.mode = "nodes" /\ Len(a.vals) # Len(a.a)
                     \/ a.mode = "two" /\ Len(a.vals) # Len(a.a) + Len(a.b)

DoFacEdge(s, f, name, p, a, L, now) ==
  IF FacWrongLen(a) THEN {R("insuf", s, <<>>)}
  ELSE UNION {IF r.out = "ok" THEN ConnectAll(r.s, Len(s.o) + 1, FacConns(a), L, now) ELSE {r}
              : r \in DoGenEdge(s, f, name, p, L, now)}

(* the sample graph: a context with seven nodes and seven edges of three
   (every two nodes are on one edge, see FanoPlane in ReiMC)              *)
FanoLines == <<<<0, 1, 2>>, <<2, 3, 4>>, <<1, 4, 6>>, <<0, 3, 6>>, <<2, 5, 6>>, <<1, 3, 5>>, <<0, 4, 5>>>>
FanoName(l) == FoldLeft(LAMBDA a, x : a \o ToString(x), "e", l)
RECURSIVE FanoEdges(_, _, _, _, _, _)
FanoEdges(s, f, c, ls, L, now) ==
  IF ls = <<>> THEN {R("ok", s, <<>>)}
  ELSE LET ns == [i \in 1..3 |-> c + 1 + Head(ls)[i]] IN
       UNION {IF r.out = "ok" THEN FanoEdges(r.s, f, c, Tail(ls), L, now) ELSE {r}
              : r \in DoFacEdge(s, f, FanoName(Head(ls)), c, [mode |-> "nodes", a |-> ns, d1 |-> 2, has |-> FALSE], L, now)}
DoFano(s, f, L, now) ==
  LET c == Len(s.o) + 1 IN
  UNION {UNION {FanoEdges(q.s, f, c, FanoLines, L, now)
                : q \in DoGenNodes(r.s, f, [i \in 1..7 |-> ToString(i - 1)], c, L, now)}
         : r \in DoGenNode(s, f, f.n, None, L, now)}

DoFacValue(s, f, name, p, vals, L, now) ==
  DoMake(s, [Blank EXCEPT !.k = "val", !.y = "ValueNode", !.n = name, !.u = Hint(L, Len(s.o) + 1).u, !.v = vals,
                    !.og = Origin(s, f, p, name, now)], p,
         IdKey(f, name, now), Blank, now)

(* ---- semantic elements ---- *)
SemClasses ==
  [cognitiveentity |-> "CognitiveEntity", kinematicgraph |-> "KinematicGraphDefinition",
   kinematiclink |-> "KinematicLink", kinematicjoint |-> "KinematicJoint",
   cylindergeometry |-> "CylinderGeometry", polyhedrongeometry |-> "PolyhedronGeometry",
   ellipsoidgeometry |-> "EllipsoidGeometry", material |-> "VisualMaterial",
   rigidtransformation |-> "RigidTransformation", inertiaelement |-> "InertiaElement"]

(* attributes: sequence of [k, s, v]; an attribute that is None reads like one that is not there *)
Shown(at) == SelectSeq(at, LAMBDA x : x.s # "<None>")
SetAttr(at, x) ==
  IF x.s = "<None>" THEN SelectSeq(at, LAMBDA y : y.k # x.k)
  ELSE IF \E i \in DOMAIN at : at[i].k = x.k
  THEN [i \in DOMAIN at |-> IF at[i].k = x.k THEN x ELSE at[i]]
  ELSE Append(at, x)
DelAttr(at, key) == SelectSeq(at, LAMBDA x : x.k # key)
SameAttrs(a, b) == Range2(a) = Range2(b) /\ Len(a) = Len(b)

(* canon: the requested kind in lower case without blanks and underscores *)
DoFacSem(s, f, canon, name, p, attrs, vals, hasv, L, now) ==
  IF attrs = <<>> THEN {R("insuf", s, <<>>)}
  ELSE IF canon \notin DOMAIN SemClasses THEN {R("type", s, <<>>)}
  ELSE DoMake(s, [Blank EXCEPT !.k = "sem", !.y = SemClasses[canon], !.n = name,
                               !.u = Hint(L, Len(s.o) + 1).u, !.og = Origin(s, f, p, name, now),
                               !.at = IF hasv THEN SetAttr(Shown(attrs), [k |-> "values", s |-> "", v |-> vals])
                                      ELSE Shown(attrs)], p,
              IdKey(f, name, now), Blank, now)

DoAttrSet(s, i, x) == {R("ok", [s EXCEPT !.o[i].at = SetAttr(@, x)], <<>>)}
DoAttrDel(s, i, key) == {R("ok", [s EXCEPT !.o[i].at = DelAttr(@, key)], <<>>)}

(* ---- value nodes; idx counts from 0 ---- *)
DoValSet(s, i, idx, x) ==
  LET n == Len(s.o[i].v)
  IN IF idx >= 0 /\ idx < n THEN {R("ok", [s EXCEPT !.o[i].v[idx + 1] = x], <<>>)}
     ELSE IF idx < 0 /\ -idx <= n THEN {R("ok", [s EXCEPT !.o[i].v[n + idx + 1] = x], <<>>)}
     ELSE {R("index", s, <<>>)}
(* values lo .. hi - 1 are replaced by xs *)
DoValSlice(s, i, lo, hi, xs) ==
  LET v == s.o[i].v
      a == IF lo < Len(v) THEN lo ELSE Len(v)
      b == IF hi < a THEN a ELSE IF hi < Len(v) THEN hi ELSE Len(v)
  IN {R("ok", [s EXCEPT !.o[i].v = SubSeq(v, 1, a) \o xs \o SubSeq(v, b + 1, Len(v))], <<>>)}
DoValAll(s, i, xs) == {R("ok", [s EXCEPT !.o[i].v = xs], <<>>)}

(* calls that return what they made *)
Fresh(s, r) == SelectSeq([i \in 1..(Len(r.s.o) - Len(s.o)) |-> Len(s.o) + i],
                         LAMBDA i : r.s.o[i].k \notin {"rel", "port"})
Returning(S, s) == {IF r.out = "ok" THEN [r EXCEPT !.res = Fresh(s, r)] ELSE r : r \in S}

(* ------------------------- observations -------------------------------- *)
RECURSIVE Find(_, _, _)
Find(o, i, toks) ==
  LET m == KidsNamed(o, i, Head(toks)) IN
  IF Len(toks) = 1 THEN m
  ELSE FlattenSeq([j \in DOMAIN m |-> Find(o, m[j], Tail(toks))])

SubRels(o, e) == KidsOf(o, e, "rel")
Incoming(o, e) == SelectSeq(SubRels(o, e), LAMBDA r : o[r].dir \in {0, 2})
Outgoing(o, e) == SelectSeq(SubRels(o, e), LAMBDA r : o[r].dir \in {1, 2})
Induced(o, e) == [i \in DOMAIN SubRels(o, e) |-> o[SubRels(o, e)[i]].e]
Incidence(dir) == IF dir = 0 THEN <<1, 0>> ELSE IF dir = 1 THEN <<0, 1>> ELSE <<1, 1>>

(* ------------------------- invariants ---------------------------------- *)
RECURSIVE AncLen(_, _, _)
AncLen(o, i, fuel) == IF i = None \/ fuel = 0 THEN 0 ELSE 1 + AncLen(o, o[i].p, fuel - 1)
Acyclic(o) == \A i \in DOMAIN o : AncLen(o, i, Len(o) + 1) <= Len(o)
Linked(o) == /\ \A i \in DOMAIN o : \A c \in Kids(o, i) : c \in DOMAIN o /\ o[c].p = i
             /\ \A c \in DOMAIN o : o[c].p # None => c \in Kids(o, o[c].p)
OnceEach(o) == \A i \in DOMAIN o : Cardinality(Kids(o, i)) = Len(o[i].ch)
Forest(o) == Acyclic(o) /\ Linked(o) /\ OnceEach(o)
NamesMirror(o) == \A i \in DOMAIN o : o[i].q = QName(o, i)
DepthMirror(o) == \A i \in DOMAIN o : o[i].d = Depth(o, i)
Counted(o) == \A i \in DOMAIN o : o[i].cnt = Len(o[i].ch)
Numbered(o) == \A i \in DOMAIN o : \A a, b \in DOMAIN o[i].ch :
                 a < b => o[o[i].ch[a]].c < o[o[i].ch[b]].c
UniqueUids(o) == \A i \in DOMAIN o : \A a, b \in Kids(o, i) : a # b => o[a].u # o[b].u
PortsPaired(o) == \A r \in DOMAIN o : o[r].k = "rel" /\ o[r].e # None =>
                    Len(PortsFor(o, o[r].e, r)) <= 1
=============================================================================
