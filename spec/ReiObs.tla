------------------------------- MODULE ReiObs -------------------------------
(***************************************************************************)
(* Everything the library computes from the state without changing it:     *)
(* enumeration, lookup, traversal, search, queries, indexing, tensors,     *)
(* factorization, encoding.  Observe(s, e) is the set of allowed results   *)
(* of the observing operation recorded in event e.                         *)
(***************************************************************************)
EXTENDS Rei

Obs(s, res) == {R("ok", s, res)}
Same(s) == Obs(s, <<>>)

Filter2(q, S) == SelectSeq(q, LAMBDA x : x \in S)
SumSeq(q) == FoldLeft(LAMBDA x, y : x + y, 0, q)
OfKind(o, ks) == {i \in DOMAIN o : o[i].k \in ks}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

(* ------------------------- traversals ---------------------------------- *)
(* F: the selected elements; lim: how many levels below the start, -1 all  *)
RECURSIVE Levels(_, _, _, _)
Levels(o, front, F, lim) ==
  IF front = <<>> \/ lim = 0 THEN <<>>
  ELSE LET nx == FlattenSeq([i \in DOMAIN front |-> Filter2(o[front[i]].ch, F)])
       IN nx \o Levels(o, nx, F, lim - 1)

RECURSIVE Pre(_, _, _, _)
Pre(o, i, F, lim) ==
  IF lim = 0 THEN <<>>
  ELSE LET cs == Rev(Filter2(o[i].ch, F))
       IN FlattenSeq([j \in DOMAIN cs |-> <<cs[j]>> \o Pre(o, cs[j], F, lim - 1)])

Visits(o, a) ==
  LET F == Range2(a.flt)
      root == IF a.ign \/ a.st \notin F THEN <<>> ELSE <<a.st>>
  IN root \o (IF a.mode = "b" THEN Levels(o, <<a.st>>, F, a.lim) ELSE Pre(o, a.st, F, a.lim))

(* fail = k: the visitor raises when called for the k-th time; nul = k: it
   returns nothing for the elements whose number k divides                 *)
DoTraverse(s, a) ==
  LET v == Visits(s.o, a) IN
  IF a.fail > 0 /\ a.fail <= Len(v)
  THEN {R("boom", s, <<SubSeq(v, 1, a.fail - 1), <<>>>>)}
  ELSE Obs(s, <<v, [i \in DOMAIN v |-> IF a.nul > 0 /\ v[i] % a.nul = 0 THEN 0 ELSE v[i]]>>)   \* 0: nothing

(* ------------------------- search by qualified name -------------------- *)
DoSearch(s, a) ==
  LET scope == IF a.bi THEN Subtree(s.o, Root(s.o, a.st)) ELSE Subtree(s.o, a.st)
      hit == {i \in scope : s.o[i].q = a.name}
  IN IF hit = {} THEN Obs(s, <<>>) ELSE {R("ok", s, <<i>>) : i \in hit}

(* ------------------------- query engine -------------------------------- *)
(* log: what was done to the engine: [w |-> "add", n, q] or [w |-> "clear"];
   adding under a name that is there replaces that query in its place      *)
RECURSIVE Engine(_, _)
Engine(qs, log) ==
  IF log = <<>> THEN qs
  ELSE LET x == Head(log)
           at == SelectInSeq(qs, LAMBDA y : y.n = x.n)
       IN Engine(IF x.w = "clear" THEN <<>>
                 ELSE IF at > 0 THEN [qs EXCEPT ![at] = x] ELSE Append(qs, x), Tail(log))

(* the elements the predicate is asked about *)
Asked(o, q) ==
  LET F == Range2(q.trav) \cap OfKind(o, {"node", "edge", "rel", "sem"}) IN
  Visits(o, [st |-> q.ctx, mode |-> "b", flt |-> SetToSeq(F), ign |-> FALSE, lim |-> 0 - 1])
Query(o, q) == Filter2(Asked(o, q), Range2(q.pred))

DoEngine(s, a) ==
  LET qs == Engine(<<>>, a.log)
      asked == SumSeq([i \in DOMAIN qs |-> Len(Asked(s.o, qs[i]))])
  IN IF a.fail > 0 /\ a.fail <= asked THEN {R("boom", s, <<>>)}
     ELSE Obs(s, FlattenSeq([i \in DOMAIN qs |-> Query(s.o, qs[i])]))

(* ------------------------- indexing ------------------------------------ *)
Indexed(o, c, kind, root, lim) ==
  (IF root /\ o[c].k = kind THEN <<c>> ELSE <<>>)
  \o Levels(o, <<c>>, OfKind(o, {kind}), lim)
DoIndex(s, a) ==
  Obs(s, <<Indexed(s.o, a.st, "node", ~a.ign, a.lim), Indexed(s.o, a.st, "edge", ~a.ign, a.lim),
           Indexed(s.o, a.st, "val", ~a.ign, a.lim)>>)

(* ------------------------- tensors -------------------------------------- *)
Pos(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
(* the weight of a relation: 1 without a value node, else the sum of its values.
   Values may be counted in parts (quarters, say); one: how many make 1.     *)
RelWeight(o, r, one) == IF o[r].w = None THEN one ELSE SumSeq(o[o[r].w].v)

(* the links relation r contributes: <<edge, source, target, weight>> *)
Links(o, e, r, one) ==
  LET x == o[r].e
      w == RelWeight(o, r, one)
      others == SelectSeq(Induced(o, e), LAMBDA y : y # x)
      src == IF o[r].dir \in {0, 2} /\ w # 0
             THEN [i \in DOMAIN others |-> <<e, x, others[i], w>>] ELSE <<>>
      dst == IF o[r].dir \in {1, 2} /\ w # 0
             THEN [i \in DOMAIN others |-> <<e, others[i], x, w>>] ELSE <<>>
  IN src \o dst
EdgeLinks(o, e, one) == LET rs == SubRels(o, e) IN FlattenSeq([i \in DOMAIN rs |-> Links(o, e, rs[i], one)])
AllLinks(o, es, one) == FlattenSeq([i \in DOMAIN es |-> EdgeLinks(o, es[i], one)])

(* the last link written decides *)
LastOf(q, P(_)) == LET m == SelectSeq(q, P) IN IF m = <<>> THEN 0 ELSE m[Len(m)][4]

DoTensor(s, a) ==
  LET o  == s.o
      ns == Indexed(o, a.st, "node", FALSE, 1)
      es == Indexed(o, a.st, "edge", FALSE, 1)
      lk == [i \in DOMAIN es |-> EdgeLinks(o, es[i], a.one)]
      W  == [e \in DOMAIN es |-> [x \in DOMAIN ns |-> [y \in DOMAIN ns |->
               LastOf(lk[e], LAMBDA z : z[2] = ns[x] /\ z[3] = ns[y])]]]
      Io == [e \in DOMAIN es |-> [x \in DOMAIN ns |-> LastOf(lk[e], LAMBDA z : z[2] = ns[x])]]
      Ii == [e \in DOMAIN es |-> [x \in DOMAIN ns |-> LastOf(lk[e], LAMBDA z : z[3] = ns[x])]]
  IN Obs(s, <<W, Io, Ii>>)

(* degrees and Laplacians, doubled, of the recorded W, Io, Ii *)
ColSum(M, j) == SumSeq([e \in DOMAIN M |-> M[e][j]])
Deg2(a, j) == (ColSum(a.Io, j) + ColSum(a.Ii, j)) * (IF \A e \in DOMAIN a.Io : a.Io[e][j] = a.Ii[e][j] THEN 1 ELSE 2)
Degs2(a) == [j \in 1..a.n |-> Deg2(a, j)]
DD2(a, e, j) == LET In == SumSeq([i \in 1..a.n |-> a.W[e][i][j]])
                    Out == SumSeq([i \in 1..a.n |-> a.W[e][j][i]])
                IN In * (IF In = Out THEN 1 ELSE 2)
L2(a, e, i, j) == (IF i = j THEN DD2(a, e, j) ELSE 0) - 2 * a.W[e][i][j]
Lp2(a, i, j) == (IF i = j THEN Deg2(a, j) ELSE 0) - 2 * SumSeq([e \in DOMAIN a.W |-> a.W[e][i][j]])
Sq(n, F(_, _)) == [i \in 1..n |-> [j \in 1..n |-> F(i, j)]]
DoLaplace(s, a) ==
  Obs(s, <<Degs2(a), [e \in DOMAIN a.W |-> Sq(a.n, LAMBDA i, j : L2(a, e, i, j))],
           Sq(a.n, LAMBDA i, j : Lp2(a, i, j)), <<SumSeq(Degs2(a))>>,
           [e \in DOMAIN a.W |-> Sq(a.n, LAMBDA i, j : IF i = j THEN DD2(a, e, j) ELSE 0)],
           Sq(a.n, LAMBDA i, j : IF i = j THEN Deg2(a, j) ELSE 0)>>)

(* The traversal that follows relations: from a node to its edges, from an
   edge to its relations, from a relation to its endpoint, every element once,
   first come first served, lim levels of endpoints.  A relation is visited
   with what it links as a source, and then as a target.                    *)
(* visitors are told identifiers: the first element that has it stands for it *)
Known(o, i) == CHOOSE j \in 1..i : /\ o[j].k \in {"node", "edge"} /\ o[j].u = o[i].u
                                  /\ \A m \in 1..(j - 1) : ~(o[m].k \in {"node", "edge"} /\ o[m].u = o[i].u)
VisitsOfRel(o, r, norm, one) ==
  LET e == o[r].p
      x == o[r].e
      v == IF o[r].w = None THEN <<one>> ELSE o[o[r].w].v
      w == IF norm = "sum" THEN SumSeq(v) ELSE SumSeq([i \in DOMAIN v |-> v[i] * v[i]])
      others == SelectSeq(Induced(o, e), LAMBDA y : y # x)
      src == IF o[r].dir \in {0, 2} /\ w # 0 THEN <<[i \in DOMAIN others |-> <<Known(o, e), Known(o, x), Known(o, others[i]), w>>]>> ELSE <<>>
      dst == IF o[r].dir \in {1, 2} /\ w # 0 THEN <<[i \in DOMAIN others |-> <<Known(o, e), Known(o, others[i]), Known(o, x), w>>]>> ELSE <<>>
  IN src \o dst
RECURSIVE HyperSeq(_, _, _, _)
HyperSeq(o, todo, seen, lim) ==
  IF todo = <<>> THEN <<>>
  ELSE LET i == Head(todo)[1]
           d == Head(todo)[2]
           nx == IF o[i].k = "node" THEN KidsOf(o, i, "edge")
                 ELSE IF o[i].k = "edge" THEN SubRels(o, i) ELSE <<>>
       IN IF i \in seen THEN HyperSeq(o, Tail(todo), seen, lim)
          ELSE IF o[i].k = "rel"
          THEN <<i>> \o HyperSeq(o, Tail(todo) \o (IF lim < 0 \/ d + 1 < lim THEN <<<<o[i].e, d + 1>>>> ELSE <<>>),
                                 seen \cup {i}, lim)
          ELSE HyperSeq(o, Tail(todo) \o [j \in DOMAIN nx |-> <<nx[j], d>>], seen \cup {i}, lim)
Hyper(o, st, norm, lim, one) ==
  LET rs == HyperSeq(o, <<<<st, 0>>>>, {}, lim) IN FlattenSeq([i \in DOMAIN rs |-> VisitsOfRel(o, rs[i], norm, one)])
(* which relations these are: those of the edges of the start, and those of
   what they end at, lim times                                              *)
RelsOfElem(o, i) == IF o[i].k = "node" THEN UNION {Range2(SubRels(o, e)) : e \in Range2(KidsOf(o, i, "edge"))}
                    ELSE IF o[i].k = "edge" THEN Range2(SubRels(o, i)) ELSE {i}
RECURSIVE RelsWithin(_, _, _)
RelsWithin(o, S, lim) ==
  LET rs == UNION {RelsOfElem(o, i) : i \in S}
  IN IF lim <= 1 THEN rs ELSE rs \cup RelsWithin(o, {o[r].e : r \in rs}, lim - 1)
DoHyper(s, a) ==
  LET v == Hyper(s.o, a.st, a.norm, a.lim, a.one) IN
  IF a.fail > 0 /\ a.fail <= Len(v) THEN {R("boom", s, SubSeq(v, 1, a.fail - 1))} ELSE Obs(s, v)

(* ------------------------- factorization -------------------------------- *)
Edges2(o, S) == {i \in S : o[i].k = "edge"}
RECURSIVE Reach(_, _, _)
Reach(o, done, front) ==
  IF front = {} THEN done
  ELSE LET nx == UNION {IF o[i].k = "node" THEN {c \in Kids(o, i) : o[c].k = "edge"}
                        ELSE IF o[i].k = "edge" THEN {o[r].e : r \in Range2(Outgoing(o, i))}
                        ELSE {} : i \in front}
           new == nx \ (done \cup front)
       IN Reach(o, done \cup front, new)

SortIds(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
PairLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])

DoFactor(s, a) ==
  LET es == Edges2(s.o, Reach(s.o, {}, {a.st}))
      ins == UNION {Range2(Incoming(s.o, e)) : e \in es}
      si == SortIds(ins)
  IN Obs(s, [i \in DOMAIN si |-> <<si[i]>> \o SortIds(Range2(Outgoing(s.o, s.o[si[i]].p)))])

Pairs(o, rels, loops) ==
  {p \in rels \X rels : /\ o[p[1]].p = o[p[2]].p /\ o[p[1]].p # None /\ o[o[p[1]].p].k = "edge"
                        /\ o[p[1]].dir \in {0, 2} /\ o[p[2]].dir \in {1, 2}
                        /\ loops \/ o[p[1]].e # o[p[2]].e}
DoFactorSub(s, a) ==
  LET S == Range2(a.sel)
      N == {i \in S : s.o[i].k = "node"}
      rels == UNION {{r \in Range2(SubRels(s.o, e)) : s.o[r].e \in N} : e \in Edges2(s.o, S)}
  IN Obs(s, SetToSortSeq(Pairs(s.o, rels, a.loops), PairLess))
DoFactorRel(s, a) ==
  LET rels == {i \in Range2(a.sel) : s.o[i].k = "rel"}
  IN Obs(s, SetToSortSeq(Pairs(s.o, rels, a.loops), PairLess))

(* ------------------------- encoding ------------------------------------- *)
(* what an encoded context carries: the context with its direct nodes,
   edges and values, and the relations of those edges                      *)
Tag(o, i) == <<o[i].u, o[i].n>>
QNames(o, c) ==
  LET es == KidsOf(o, c, "edge")
      q == <<c>> \o KidsOf(o, c, "node") \o es \o KidsOf(o, c, "val")
           \o FlattenSeq([i \in DOMAIN es |-> SubRels(o, es[i])])
  IN [i \in DOMAIN q |-> o[q[i]].q]
Picture(o, c) ==
  LET ns == <<c>> \o KidsOf(o, c, "node")
      es == KidsOf(o, c, "edge")
      vs == KidsOf(o, c, "val")
      rels == UNION {Range2(SubRels(o, e)) : e \in Range2(es)}
      PortRels(i) == SelectSeq(KidsOf(o, i, "port"), LAMBDA p : o[p].e \in rels)
      els == ns \o es
  IN [nodes |-> [i \in DOMAIN ns |-> Tag(o, ns[i])],
      edges |-> [i \in DOMAIN es |-> Tag(o, es[i])],
      vals  |-> [i \in DOMAIN vs |-> Tag(o, vs[i])],
      hold  |-> [i \in DOMAIN vs |-> o[vs[i]].v],
      rels  |-> [i \in DOMAIN es |-> LET rs == SubRels(o, es[i]) IN
                   [j \in DOMAIN rs |-> <<o[rs[j]].u, o[rs[j]].n, o[o[rs[j]].e].u, ToString(o[rs[j]].dir)>>]],
      ports |-> [i \in DOMAIN els |-> LET ps == PortRels(els[i]) IN
                   [j \in DOMAIN ps |-> o[o[ps[j]].e].n \o "#" \o o[o[ps[j]].e].u]],
      from |-> QNames(o, c)]      \* a copy of it remembers these as its origins

(* the elements of a context in the order of their indices *)
IndexOf(o, c) == [nodes |-> Indexed(o, c, "node", TRUE, 0 - 1),
                  edges |-> Indexed(o, c, "edge", TRUE, 0 - 1),
                  vals  |-> Indexed(o, c, "val", TRUE, 0 - 1)]
(* an index, by identity *)
Ranks(o, q) == [i \in DOMAIN q |-> <<o[q[i]].u, ToString(i - 1)>>]
PictureIndex(o, ix) == [nodes |-> Ranks(o, ix.nodes), edges |-> Ranks(o, ix.edges), vals |-> Ranks(o, ix.vals)]

(* ports are compared as sets *)
PortSets(pic) == [i \in DOMAIN pic.ports |-> Range2(pic.ports[i])]
EqPic(x, y) == /\ x.nodes = y.nodes /\ x.edges = y.edges /\ x.vals = y.vals /\ x.hold = y.hold
               /\ x.rels = y.rels /\ PortSets(x) = PortSets(y)
               /\ \A i \in DOMAIN x.ports : Len(x.ports[i]) = Len(y.ports[i])

(* tensor entries of a context, indices counted with the context as 0 *)
EntryList(o, c, x, one) ==
  LET lk == AllLinks(o, KidsOf(o, c, "edge"), one)
  IN [z \in DOMAIN lk |-> <<Pos(x.edges, lk[z][1]) - 1, Pos(x.nodes, lk[z][2]) - 1, Pos(x.nodes, lk[z][3]) - 1, lk[z][4]>>]
Entries(o, c, x, one) ==
  LET ix == EntryList(o, c, x, one)
      wk == {<<z[1], z[2], z[3]>> : z \in Range2(ix)}
      ok == {<<z[1], z[2]>> : z \in Range2(ix)}
      ik == {<<z[1], z[3]>> : z \in Range2(ix)}
  IN <<{<<k[1], k[2], k[3], LastOf(ix, LAMBDA z : <<z[1], z[2], z[3]>> = k)>> : k \in wk},
       {<<k[1], k[2], LastOf(ix, LAMBDA z : <<z[1], z[2]>> = k)>> : k \in ok},
       {<<k[1], k[2], LastOf(ix, LAMBDA z : <<z[1], z[3]>> = k)>> : k \in ik}>>

(* everything a message describes *)
Content(o, c, x, one) == <<[Picture(o, c) EXCEPT !.ports = <<>>], EntryList(o, c, x, one), x>>

(* mem: records [t, ...]; the position in mem is the number events refer to *)
Keep(s, x) == [s EXCEPT !.mem = Append(@, x)]

(* context c is indexed; the index is used until the next indexing, wherever
   the elements move within the context                                     *)
DoContext(s, a) == {R("ok", Keep(s, [t |-> "ctx", x |-> IndexOf(s.o, a.c)]), <<>>)}
IndexAt(s, a) == IF a.x = 0 THEN IndexOf(s.o, a.c) ELSE s.mem[a.x].x

(* an encoding: tok names the bytes of the message; equal contents have equal
   messages, different contents different ones *)
DoEncode(s, a) ==
  LET c == Content(s.o, a.c, IndexAt(s, a), a.one)
      old == {i \in DOMAIN s.mem : s.mem[i].t = "enc" /\ s.mem[i].c = a.c}
      same == {i \in old : s.mem[i].x = c}
      ok == IF same # {} THEN {s.mem[i].tok : i \in same} = {a.tok}
            ELSE \A i \in old : s.mem[i].tok # a.tok
  IN {R(IF ok THEN "ok" ELSE "othermsg", Keep(s, [t |-> "enc", c |-> a.c, x |-> c, tok |-> a.tok]), <<>>)}

(* a decoded copy: the recorded picture pic of the copy and its index *)
DoDecode(s, a) ==
  LET p == Picture(s.o, a.c)
  IN {R(IF ~EqPic(p, a.pic) THEN "otherpic"
        ELSE IF p.from # a.pic.from THEN "otherfrom"
        ELSE IF PictureIndex(s.o, IndexAt(s, a)) # a.idx THEN "otheridx"
        ELSE "ok", Keep(s, [t |-> "dec", c |-> a.c, x |-> a.pic, vs |-> [i \in DOMAIN a.idx.vals |-> a.idx.vals[i][1]]]), <<>>)}

(* a value update message made now *)
DoMsgVals(s, a) ==
  LET vs == IndexAt(s, a).vals IN
  {R("ok", Keep(s, [t |-> "upd", x |-> [i \in DOMAIN vs |-> s.o[vs[i]].v]]), <<>>)}

(* message m applied to copy d: recorded picture of the copy afterwards *)
DoApply(s, a) ==
  LET d == s.mem[a.d]
      exp == [d.x EXCEPT !.hold = [j \in DOMAIN d.x.vals |-> s.mem[a.m].x[Pos(d.vs, d.x.vals[j][1])]]]
  IN {R(IF EqPic(exp, a.pic) THEN "ok" ELSE "otherpic", [s EXCEPT !.mem[a.d].x = a.pic], <<>>)}

(* copy d looked at again: it changes by messages only *)
DoLook(s, a) ==
  {R(IF EqPic(s.mem[a.d].x, a.pic) /\ s.mem[a.d].x.from = a.pic.from THEN "ok" ELSE "otherpic", s, <<>>)}

DoEntries(s, a) ==
  LET x == Entries(s.o, a.c, IndexAt(s, a), a.one)
      B == <<Range2(a.W), Range2(a.Io), Range2(a.Ii)>>
  IN {R(IF x = B THEN "ok" ELSE "otherentries", s, <<>>)}

(* ------------------------- identities ----------------------------------- *)
(* an identity tok made by a factory named f for full name n at time t *)
DoIdent(s, a) ==
  LET old == {i \in DOMAIN s.mem : s.mem[i].t = "id"}
      key == <<a.f, a.n, a.t>>
      ok == \A i \in old : (s.mem[i].key = key) = (s.mem[i].tok = a.tok)
  IN {R(IF ok THEN "ok" ELSE "otherid", Keep(s, [t |-> "id", key |-> key, tok |-> a.tok]), <<>>)}

(* ------------------------- size ------------------------------------------ *)
Upto(n) == [i \in 1..n |-> i]
Down(n) == [i \in 1..n |-> n + 1 - i]
(* a chain: element i has the only child i+1, names are "c";  a fan: element 1
   has children 2..n, named "c".  what: the observation                      *)
Scale(a) ==
  LET n == a.n IN
  CASE a.what \in {"bfs", "dfs"} /\ a.shape = "chain" -> Upto(n)
    [] a.what = "bfs" /\ a.shape = "fan" -> Upto(n)
    [] a.shape = "wide" /\ a.what \in {"factor", "hyper", "index", "pairs"} -> Upto(n)
    [] a.shape = "wide" /\ a.what = "subset" -> Upto(20)
    [] a.shape = "wide" /\ a.what = "disc" -> [i \in 1..(n \div 2) |-> 2 * i]
    [] a.shape = "wide" /\ a.what = "edges" -> <<0, n + 1, n, n + 1>>
    [] a.shape = "fan" /\ a.what = "moved" -> [i \in 1..n |-> IF i = 1 THEN 3 ELSE 5]   \* "x/c/c"
    [] a.shape = "fan" /\ a.what = "readd" -> [i \in 1..(n - 1) |-> IF i = n - 1 THEN 2 ELSE i + 2]
    [] a.what = "sync" -> [i \in 1..(n - 1) |-> i + 1]
    [] a.what = "dfs" /\ a.shape = "fan" -> <<1>> \o [i \in 1..(n - 1) |-> n + 1 - i]
    [] a.what = "depths" /\ a.shape = "chain" -> [i \in 1..n |-> i - 1]
    [] a.what = "depths" /\ a.shape = "fan" -> [i \in 1..n |-> IF i = 1 THEN 0 ELSE 1]
    [] a.what = "qlen" /\ a.shape = "chain" -> [i \in 1..n |-> 2 * i - 1]     \* "c/c/.../c"
    [] a.what = "qlen" /\ a.shape = "fan" -> [i \in 1..n |-> IF i = 1 THEN 1 ELSE 3]
    [] a.what = "cids" -> [i \in 1..n |-> IF i = 1 \/ a.shape = "chain" THEN 0 ELSE i - 2]
    [] a.what = "lookup" /\ a.shape = "chain" -> <<n>>
    [] a.what = "lookup" /\ a.shape = "fan" -> [i \in 1..(n - 1) |-> i + 1]
    [] a.what = "search" -> <<IF a.shape = "chain" THEN n ELSE 2>>
    [] a.what = "searchup" -> <<1>>
    [] a.what = "engine" -> Upto(n)
    [] a.what = "nodeindex" /\ a.shape = "fan" -> Upto(n)
    \* after moving the second element under a fresh root: one level deeper by nothing, renamed "x/..."
    [] a.what = "moved" /\ a.shape = "chain" -> [i \in 1..(n - 1) |-> i]
    [] a.what = "removed" /\ a.shape = "chain" -> [i \in 1..(n - 1) |-> i - 1]
    [] a.what = "removed" /\ a.shape = "fan" -> [i \in 1..(n - 1) |-> i + 1]
    [] a.what = "readd" -> [i \in 1..n |-> i - 1]
    [] a.what = "bulk" -> [i \in 1..(n - 1) |-> i + 1] \o <<0, n - 1>>
    \* a path of n nodes joined by n-1 directed edges: node i is source, i+1 target
    [] a.shape = "path" -> Upto(n - 1)
    \* one edge with n endpoints, all in both directions
    [] a.what = "star" -> <<n, n, n, n * (n - 1)>>
    [] a.what = "subset" -> <<n * (n - 1), n * (n - 1)>>
    \* every other relation disconnected, the first one first
    [] a.what = "stardisc" -> [i \in 1..n |-> (i + 1) % 2]
    [] a.what = "roundtrip" -> <<n, n - 1, 1>>
    \* value i-1 held (i-1) % 3 times the number i-1, each then raised by one
    [] a.what = "update" -> [i \in 1..n |-> ((i - 1) % 3) * i]
DoScale(s, a) == Obs(s, Scale(a))

(* two recorded results must be one: x is what a run gave, y what the same
   run gave with nothing before it and nothing beside it *)
DoSame(s, a) == {R(IF a.x = a.y THEN "ok" ELSE "differs", s, <<>>)}

(* ------------------------- all observations ------------------------------ *)
Views(o, i) ==
  IF o[i].k = "node" THEN <<KidsOf(o, i, "port"), KidsOf(o, i, "node"), KidsOf(o, i, "edge"), KidsOf(o, i, "val")>>
  ELSE <<KidsOf(o, i, "port"), SubRels(o, i), Induced(o, i), Incoming(o, i), Outgoing(o, i)>>

(* the child with an identifier *)
DoGet(s, a) ==
  LET m == SelectSeq(s.o[a.p].ch, LAMBDA c : s.o[c].u = a.u)
  IN IF m = <<>> THEN {R("missing", s, <<>>)} ELSE Obs(s, <<m[1]>>)

(* the printed hierarchy: a line for every node, edge and relation below the
   start and for the start itself, breadth first                           *)
Printed(o, i) ==
  LET x == o[i] IN
  CASE x.k = "node" -> "node " \o x.q \o ": " \o x.n \o (IF x.p = None THEN "" ELSE " <- " \o o[x.p].n)
    [] x.k = "edge" -> "edge " \o x.q \o ": " \o x.n \o " " \o ToString(Len(x.ch)) \o " <- " \o o[x.p].n
    [] x.k = "rel"  -> "relation " \o x.q \o ": " \o (IF x.dir = 0 THEN "<-" ELSE IF x.dir = 1 THEN "->" ELSE "--")
                       \o " " \o o[x.e].n
DoPrint(s, a) ==
  LET v == SelectSeq(Visits(s.o, [st |-> a.st, mode |-> "b", flt |-> SetToSeq(DOMAIN s.o), ign |-> FALSE, lim |-> 0 - 1]),
                     LAMBDA i : s.o[i].k \in {"node", "edge", "rel"})
  IN Obs(s, [j \in DOMAIN v |-> Printed(s.o, v[j])])

(* a clock of the machine, read between two readings of the machine's time *)
DoClock(s, a) == {R(IF a.from <= a.read /\ a.read <= a.to THEN "ok" ELSE "othertime", s, <<>>)}

ObserveBase(s, e) ==
  LET a == e.a IN
  CASE e.op = "noop"  -> Same(s)
    [] e.op = "find"  -> Obs(s, Find(s.o, a.p, a.toks))
    [] e.op = "kids"  -> Obs(s, Filter2(s.o[a.p].ch, Range2(a.flt)))
    [] e.op = "get"   -> DoGet(s, a)
    [] e.op = "print" -> DoPrint(s, a)
    [] e.op = "clock" -> DoClock(s, a)
    [] e.op = "views" -> Obs(s, Views(s.o, a.i))
    [] e.op = "incid" -> Obs(s, Incidence(s.o[a.i].dir) \o Incidence(s.o[a.i].dir))
    [] e.op = "vread" -> Obs(s, [j \in 1..7 |-> IF j < 7 THEN s.o[a.i].v ELSE <<"index", "index", "index", "index">>])
    [] e.op = "trav"  -> DoTraverse(s, a)
    [] e.op = "srch"  -> DoSearch(s, a)
    [] e.op = "qeng"  -> DoEngine(s, a)
    [] e.op = "index" -> DoIndex(s, a)
    [] e.op = "tens"  -> DoTensor(s, a)
    [] e.op = "hyp"   -> DoHyper(s, a)
    [] e.op = "lap"   -> DoLaplace(s, a)
    [] e.op = "fac"   -> DoFactor(s, a)
    [] e.op = "facsub" -> DoFactorSub(s, a)
    [] e.op = "facrel" -> DoFactorRel(s, a)
    [] e.op = "facmap" -> Obs(s, a.xs)
    [] e.op = "ctx"   -> DoContext(s, a)
    [] e.op = "enc"   -> DoEncode(s, a)
    [] e.op = "dec"   -> DoDecode(s, a)
    [] e.op = "msg"   -> DoMsgVals(s, a)
    [] e.op = "apply" -> DoApply(s, a)
    [] e.op = "look"  -> DoLook(s, a)
    [] e.op = "coo"   -> DoEntries(s, a)
    [] e.op = "ident" -> DoIdent(s, a)
    [] e.op = "scale" -> DoScale(s, a)
    [] e.op = "same"  -> DoSame(s, a)
=============================================================================
