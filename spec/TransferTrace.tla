--------------------------- MODULE TransferTrace ----------------------------
EXTENDS Transfer, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Move(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(Len(e.vals) = Len(s.to.cells), "shape")
  \cup Clause(\A c \in DOMAIN e.vals : Moved(s.from, s.to, e.u, c, e.strict, e.S, e.vals[c]), e.how)
Lift(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(Lifted(s.from, e.u, e.degree, e.vals), "lift")
Extend(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(Extended(Elems(e.pts), e.u, e.vals), "extend")

Step(e, s) ==
  CASE e.ev = "mesh" -> [bad |-> {}, s |-> [from |-> e.from, to |-> e.to]]
    [] e.ev = "move" -> [bad |-> Move(e, s), s |-> s]
    [] e.ev = "lift" -> [bad |-> Lift(e, s), s |-> s]
    [] e.ev = "extend" -> [bad |-> Extend(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
