--------------------------- MODULE NullSpaceTrace ---------------------------
EXTENDS NullSpace, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>
Seen(s) == DetN(Gram(s.Z, s.M))

\* [M, Z] the directions known so far
Add(e, s) ==
  LET ok == Independent(Append(s.Z, e.v)) IN
  Clause((e.out = "ok") = ok, IF ok THEN "refused" ELSE "dependent")
  \cup Clause(e.kept, "argument changed")
  \cup Clause(e.n = Len(s.Z) + (IF e.out = "ok" THEN 1 ELSE 0), "length")
AfterAdd(e, s) == IF e.out = "ok" /\ Independent(Append(s.Z, e.v)) THEN [s EXCEPT !.Z = Append(s.Z, e.v)] ELSE s
\* the rest is D = det G times the value (1 when nothing is to be removed)
Clean(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(e.D = Seen(s) /\ e.w = Proj(s.Z, s.M, e.u), "projection")
  \cup Clause(e.same, "in place")
\* Gram matrix of the orthonormal basis kept, n x n in 10^6
Basis(e, s) == IF e.out # "ok" THEN {"refused"} ELSE
  Clause(Len(e.g) = Len(s.Z) /\ \A i, j \in DOMAIN e.g : AbsN(e.g[i][j] - (IF i = j THEN 1000000 ELSE 0)) <= 2, "orthonormal")
\* operators: application to u (e.how: which of the ways to apply) and their expected value times D
Applied(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(e.D = Seen(s) /\
         e.w = (CASE e.op = "project" -> Proj(s.Z, s.M, e.u)
                  [] e.op = "inner" -> MulV(s.M, Proj(s.Z, s.M, e.u))
                  \* the Riesz map of the functional M u
                  [] e.op = "riesz" -> Proj(s.Z, s.M, e.u)), e.op)
  \cup Clause(e.kept, "argument changed")

Step(e, s) ==
  CASE e.ev = "new" -> [bad |-> IF e.out = "ok" THEN {} ELSE {"refused"}, s |-> [M |-> e.M, Z |-> e.Z]]
    [] e.ev = "add" -> [bad |-> Add(e, s), s |-> AfterAdd(e, s)]
    [] e.ev = "clean" -> [bad |-> Clean(e, s), s |-> s]
    [] e.ev = "basis" -> [bad |-> Basis(e, s), s |-> s]
    [] e.ev = "apply" -> [bad |-> Applied(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
