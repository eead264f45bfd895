--------------------------- MODULE BlockFormTrace ---------------------------
(* State: the dimensions of the spaces and the block forms made so far.      *)
EXTENDS BlockForm, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

\* an operation which must succeed, or must be refused
Res(ok, e, s, new) ==
  IF ok THEN (IF e.out = "ok" THEN [bad |-> {}, s |-> [s EXCEPT !.forms[e.f] = new]] ELSE [bad |-> {"refused"}, s |-> s])
  ELSE [bad |-> Clause(e.out # "ok", "accepted"), s |-> s]

Step(e, s) ==
  CASE e.ev = "spaces" -> [bad |-> {}, s |-> [size |-> e.size, forms |-> [f \in 1..e.n |-> [sp |-> <<>>, ar |-> 0, b |-> <<>>]]]]
    [] e.ev = "new" -> Res(TRUE, e, s, NewForm(s.size, e.sp, e.ar))
    [] e.ev = "add" -> LET ok == CanAdd(s.forms[e.f], e.terms) IN Res(ok, e, s, IF ok THEN AddTerms(s.forms[e.f], e.terms) ELSE <<>>)
    [] e.ev = "set" -> LET ok == CanSet(s.forms[e.f], e.i, e.j, e.term) IN Res(ok, e, s, IF ok THEN SetBlock(s.forms[e.f], e.i, e.j, e.term) ELSE <<>>)
    [] e.ev = "inc" -> LET ok == CanSet(s.forms[e.f], e.i, e.j, e.term) IN Res(ok, e, s, IF ok THEN IncBlock(s.forms[e.f], e.i, e.j, e.term) ELSE <<>>)
    [] e.ev = "clear" -> Res(TRUE, e, s, Clear(s.forms[e.f], e.i, e.j))
    [] e.ev = "sum" -> LET ok == CanSum(s.forms[e.a], s.forms[e.b]) IN Res(ok, e, s, IF ok THEN SumForm(s.forms[e.a], s.forms[e.b]) ELSE <<>>)
    [] e.ev = "permute" -> LET ok == IsOrder(s.forms[e.a], e.order) IN Res(ok, e, s, IF ok THEN PermuteForm(s.forms[e.a], e.order) ELSE <<>>)
    [] e.ev = "complete" -> LET ok == CanComplete(s.forms[e.f]) IN Res(ok, e, s, IF ok THEN Complete(s.forms[e.f]) ELSE <<>>)
    [] e.ev = "query" -> [bad |-> Clause(e.upper = IsUpper(s.forms[e.f]), "upper") \cup Clause(e.lower = IsLower(s.forms[e.f]), "lower"), s |-> s]
    [] e.ev = "adjoint" -> [bad |-> IF e.out # "ok" THEN {"refused"} ELSE Clause(e.m = TrM(s.forms[e.f].b[e.i][e.j].m), "adjoint"), s |-> s]
    \* every form assembles to what the model says, in particular the operands of the last operation
    [] e.ev = "assemble" -> [bad |-> IF e.out # "ok" THEN {"refused"} ELSE
           Clause(e.sp = s.forms[e.f].sp, "spaces") \cup Clause(e.m = Tensor(s.forms[e.f]), "tensor"), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
