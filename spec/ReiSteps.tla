------------------------------ MODULE ReiSteps ------------------------------
(***************************************************************************)
(* The step relation: for a call e = [op, a, now] in state st, the set of  *)
(* results the specification allows.  ReiTrace compares recorded calls     *)
(* with it, ReiMC explores it.  L: the recorded elements, from which only  *)
(* names and identifiers chosen by the library are taken.                  *)
(***************************************************************************)
EXTENDS ReiKin

(* ---- the results the specification allows for event e ---- *)
Allowed(st, e, L) ==
  LET a == e.a  now == e.now IN
  CASE e.op = "new"   -> DoNew(st, [Blank EXCEPT !.k = a.k, !.y = a.y, !.n = a.n, !.u = a.u, !.ck = a.ck, !.v = a.v, !.og = a.og,
                                                !.at = a.at], a.p, Hint(L, Len(st.o) + 2), now)
    [] e.op = "add"   -> DoAdd(st, a.p, a.c, Hint(L, Len(st.o) + 1), now)
    [] e.op = "rm"    -> DoRemove(st, a.p, a.n, a.u, a.lim, now)
    [] e.op = "dereg" -> DoDeregister(st, a.c, now)
    [] e.op = "addm"  -> DoAddMany(st, a.p, a.cs, now)
    [] e.op = "rmm"   -> DoRemoveMany(st, a.p, a.qs, <<>>, now)
    [] e.op = "conn"  -> DoConnect(st, a.e, a.x, a.w, a.dir, a.sv, Hint(L, Len(st.o) + 1), Hint(L, Len(st.o) + 2), now)
    [] e.op = "newrel" -> DoNewRel(st, a, now)
    [] e.op = "port"  -> DoPort(st, a.x, a.r, Hint(L, Len(st.o) + 1), now)
    [] e.op = "disc"  -> DoDisconnect(st, a.x, a.r, now)
    [] e.op = "fnode" -> Returning(DoGenNode(st, a.f, a.n, a.p, L, now), st)
    [] e.op = "fnodes" -> Returning(DoGenNodes(st, a.f, a.ns, a.p, L, now), st)
    [] e.op = "fedge" -> Returning(DoFacEdge(st, a.f, a.n, a.p, a.a, L, now), st)
    [] e.op = "fano"  -> Returning(DoFano(st, a.f, L, now), st)
    [] e.op = "fval"  -> Returning(DoFacValue(st, a.f, a.n, a.p, a.v, L, now), st)
    [] e.op = "fsem"  -> Returning(DoFacSem(st, a.f, a.canon, a.n, a.p, a.at, a.v, a.hasv, L, now), st)
    [] e.op = "vslice" -> DoValSlice(st, a.i, a.j, a.h, a.v)
    [] e.op = "vset"  -> DoValSet(st, a.i, a.j, a.x)
    [] e.op = "vall"  -> DoValAll(st, a.i, a.v)
    [] e.op = "aset"  -> DoAttrSet(st, a.i, a.x)
    [] e.op = "adel"  -> DoAttrDel(st, a.i, a.k)
    [] e.op = "setck" -> {R("ok", [st EXCEPT !.o[a.i].ck = a.ck], <<>>)}
    [] OTHER          -> Observe(st, e)

InvClauses(o) ==
  (IF NamesMirror(o) THEN {} ELSE {"inv:names"})
  \cup (IF DepthMirror(o) THEN {} ELSE {"inv:depth"})
  \cup (IF Counted(o) THEN {} ELSE {"inv:count"})
  \cup (IF Numbered(o) THEN {} ELSE {"inv:numbers"})
  \cup (IF UniqueUids(o) THEN {} ELSE {"inv:uids"})
  \cup (IF PortsPaired(o) THEN {} ELSE {"inv:ports"})

=============================================================================
