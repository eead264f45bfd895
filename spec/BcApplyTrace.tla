---------------------------- MODULE BcApplyTrace ----------------------------
(* State: the system as given, the layout, the conditions in force.          *)
EXTENDS BcApply, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Shapes(e, s) == /\ Len(e.A) = Len(s.sizes) /\ \A i \in DOMAIN e.A : /\ Len(e.A[i]) = Len(s.sizes)
                                                                   /\ \A j \in DOMAIN e.A[i] : IsMat(e.A[i][j], s.sizes[i], s.sizes[j])
BlockAt(M, sizes, i, j) == [r \in 1..sizes[i] |-> [c \in 1..sizes[j] |-> M[Offset(sizes, i) + r][Offset(sizes, j) + c]]]
MatOK(e, s, M) == \A i \in DOMAIN s.sizes : \A j \in DOMAIN s.sizes : e.A[i][j] = BlockAt(M, s.sizes, i, j)
VecOK(v, s, x) == Len(v) = Len(s.sizes) /\ Flat(v) = x /\ \A k \in DOMAIN v : Len(v[k]) = s.sizes[k]

ApplyBad(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  LET es == Entries(s.sizes, e.conds)
      C == Constrained(es) IN
  Clause(Shapes(e, s), "shape")
  \cup (IF Shapes(e, s) THEN Clause(MatOK(e, s, NewMatrix(s.A, C, e.sym, e.d)), "matrix") ELSE {})
  \cup Clause(VecOK(e.b, s, NewRhs(s.A, s.b, es, e.sym, e.d)), "rhs")
  \cup Clause(e.wrapped = e.plain, "layout")
  \cup Clause(e.reapply = e.asked, "reapply")

AgainBad(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(VecOK(e.b, s, NewRhs(s.A, Flat(e.rhs), Entries(s.sizes, s.conds), s.sym, s.d)), "rhs")

Step(e, s) ==
  CASE e.ev = "system" -> [bad |-> {}, s |-> [A |-> e.A, b |-> e.b, sizes |-> e.sizes, conds |-> <<>>, sym |-> TRUE, d |-> 1]]
    [] e.ev = "apply" -> [bad |-> ApplyBad(e, s), s |-> [s EXCEPT !.conds = e.conds, !.sym = e.sym, !.d = e.d]]
    [] e.ev = "update" -> [bad |-> {}, s |-> [s EXCEPT !.conds = e.conds]]
    [] e.ev = "again" -> [bad |-> AgainBad(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
