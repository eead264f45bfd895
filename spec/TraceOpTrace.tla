---------------------------- MODULE TraceOpTrace ----------------------------
EXTENDS TraceOp, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Verdict(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  LET tags == Elems(e.tags)
      on(c) == e.all \/ s.em.mark[c] \in tags
      vals(c) == [k \in DOMAIN e.vals[c] |-> e.vals[c][k][3]] IN
  Clause(Len(e.vals) = Len(s.em.cells), "shape")
  \cup Clause(\A c \in DOMAIN e.vals : on(c) =>
          vals(c) \in Expected(s.bg, s.em, e.u, c, e.normal[c], e.restr, e.vals[c]), "value")
  \cup Clause(\A c \in DOMAIN e.vals : ~on(c) => \A k \in DOMAIN e.vals[c] : e.vals[c][k][3] = 0, "untagged")

Step(e, s) ==
  CASE e.ev = "mesh" -> [bad |-> {}, s |-> [bg |-> [x |-> e.x, cells |-> e.cells], em |-> e.em]]
    [] e.ev = "trace" -> [bad |-> Verdict(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
