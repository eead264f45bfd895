--------------------------- MODULE PointReadTrace ---------------------------
EXTENDS PointRead, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

ReadValue(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(Len(e.vals) = e.n /\ \A i \in DOMAIN e.vals : e.vals[i] = Value(s.m, s.u, e.v, e.c, i), "value")
ReadSlope(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  LET a == Along(s.m, e.c) IN
  Clause(Len(e.vals) = 1 /\ e.S = DotV(a, a) /\ e.vals[1] = Slope(s.m, s.u, e.v, e.c, e.t), "slope")
\* the reading next to the function it is taken of: D = (d + 1)! times the integral of (reading of f) f
Product(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(e.val = Value(s.m, s.u, e.v, e.c, 1) * Content(s.m, s.u, 1), "function")

Step(e, s) ==
  CASE e.ev = "mesh" -> [bad |-> {}, s |-> [m |-> e.m, u |-> e.u]]
    [] e.ev = "set" -> [bad |-> {}, s |-> [s EXCEPT !.u = e.u]]
    [] e.ev = "value" -> [bad |-> ReadValue(e, s), s |-> s]
    [] e.ev = "slope" -> [bad |-> ReadSlope(e, s), s |-> s]
    [] e.ev = "product" -> [bad |-> Product(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
