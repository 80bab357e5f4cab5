------------------------------ MODULE ReiTrace ------------------------------
(***************************************************************************)
(* Trace validation.  Every line of the trace file is one recorded history *)
(* of the real library: [id |-> name, ev |-> events].  An event carries    *)
(* the operation, its arguments, the clock readings, the outcome, the      *)
(* result and the records of all elements whose projected state changed    *)
(* (dl).  Each event must be a step the specification allows from the      *)
(* state before it; a disagreement is printed with the name of the clause  *)
(* that fails, and checking goes on from the recorded state, so that one   *)
(* early disagreement does not hide later ones.                            *)
(***************************************************************************)
EXTENDS ReiSteps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.REI_TRACES)

VARIABLES tr, l, s
vars == <<tr, l, s>>

Ev(t, i) == Traces[t].ev[i]

Fields == <<"k", "y", "n", "u", "ck", "p", "ch", "cnt", "d", "q", "c", "t", "e", "dir", "w", "sv", "v", "og">>

(* ---- comparison ---- *)
Mark(old, exp, i, f) ==
  (IF i \in DOMAIN old /\ exp[i][f] = old[i][f] THEN "x:" ELSE "f:") \o f \o ":" \o exp[i].k
FieldClauses(old, exp, L) ==
  UNION {{Mark(old, exp, i, f) : f \in {Fields[j] : j \in {j \in DOMAIN Fields : exp[i][Fields[j]] # L[i][Fields[j]]}}}
         : i \in DOMAIN exp}
  \cup {Mark(old, exp, i, "at")
        : i \in {i \in DOMAIN exp : ~SameAttrs(exp[i].at, L[i].at)}}

Clauses(st, e, L, r) ==
  (IF Len(r.s.o) # Len(L) THEN {"count"} ELSE FieldClauses(st.o, r.s.o, L))
  \cup (IF r.res # e.res THEN {"res"} ELSE {})

Judge(st, e, L) ==
  LET all == Allowed(st, e, L)
      ok  == {r \in all : r.out = e.out}
  IN IF ok = {} THEN [cl |-> {"out"} \cup (IF st.o = L THEN {} ELSE {"state"}), s |-> Resync(st, L, (CHOOSE r \in all : TRUE).s.mem),
                      exp |-> {r.out : r \in all}]
     ELSE LET r  == IF Cardinality(ok) = 1 THEN CHOOSE r \in ok : TRUE
                    ELSE LET good == {x \in ok : Clauses(st, e, L, x) = {}} IN
                         IF good = {} THEN CHOOSE x \in ok : TRUE ELSE CHOOSE x \in good : TRUE
              c  == Clauses(st, e, L, r)
          IN [cl |-> c, s |-> IF c = {} THEN r.s ELSE Resync(st, L, r.s.mem), exp |-> {x.out : x \in all}]

Line(tag, e, cl, exp) ==
  PrintT(tag \o "|" \o Traces[tr].id \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o e.out \o "|"
         \o ToString(cl) \o "|" \o ToString(exp))

Init == /\ tr \in DOMAIN Traces
        /\ l = 1
        /\ s = Empty

Step ==
  /\ l <= Len(Traces[tr].ev)
  /\ UNCHANGED tr
  /\ \E e \in {Ev(tr, l)} : \E L \in {Recorded(s.o, e)} :
     IF ~(\A i \in DOMAIN L : "k" \in DOMAIN L[i]) \/ ~Forest(L)
     THEN /\ Line("STOP", e, {"inv:forest"}, {})
          /\ l' = Len(Traces[tr].ev) + 1
          /\ s' = Empty
     ELSE \E j \in {Judge(s, e, L)} :
          \E cl \in {j.cl \cup (IF j.cl = {} THEN {} ELSE InvClauses(L))} :
             /\ IF cl # {} THEN Line("FAIL", e, cl, j.exp) ELSE TRUE
             /\ l' = l + 1
             /\ s' = j.s
             /\ IF l = Len(Traces[tr].ev) THEN Line("END", e, {}, {}) ELSE TRUE

Next == Step
Spec == Init /\ [][Next]_vars

(* The invariants of the specification itself, on every state that the
   specification (rather than a resynchronisation) produced, are checked by
   ReiMC; here they are evaluated on the recorded states. *)
=============================================================================
