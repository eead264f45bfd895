---------------------------- MODULE BranchesTrace ---------------------------
(* State: the network and its colouring.                                     *)
EXTENDS Branches, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Step(e, s) ==
  CASE e.ev = "mesh" -> [bad |-> {}, s |-> [cells |-> e.cells, vals |-> <<>>, loops |-> <<>>]]
    [] e.ev = "colour" -> [bad |-> IF e.out # "ok" THEN {"refused"} ELSE ColourFaults(s.cells, e.vals, e.branches, e.loops) \cup Clause(e.after = s.cells, "touched"),
                           s |-> IF e.out # "ok" THEN s ELSE [s EXCEPT !.vals = e.vals, !.loops = e.loops]]
    [] e.ev = "isloop" -> [bad |-> Clause(e.out = (Terminals(s.cells) = {}), "isloop"), s |-> s]
    [] e.ev = "cells" -> LET P == {c \in DOMAIN s.vals : s.vals[c] = e.tag} IN
         [bad |-> IF e.out # "ok" THEN {"walk-refused"} ELSE
                  {"walk-" \o q : q \in WalkFaults(s.cells, P, e.loop, e.walk) \cup (IF e.loop THEN {} ELSE StartFault(s.cells, e.walk))}, s |-> s]
    [] e.ev = "vertices" -> LET P == IF e.whole THEN DOMAIN s.cells ELSE {c \in DOMAIN s.vals : s.vals[c] = e.tag} IN
         [bad |-> IF e.out # "ok" THEN {"walk-refused"} ELSE {"vertices-" \o q : q \in VertexWalkFaults(s.cells, P, e.loop, e.walk)}, s |-> s]
    [] e.ev = "contour" -> [bad |-> Clause(e.out = "ok" /\ Len(e.inside) = Len(e.points) /\ \A k \in DOMAIN e.points : e.inside[k] = InsidePoly(e.poly, e.points[k]), "inside"), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
