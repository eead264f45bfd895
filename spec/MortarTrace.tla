----------------------------- MODULE MortarTrace ----------------------------
(* State: the marked mesh and, once made, the splitting.                     *)
EXTENDS Mortar, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

SplitBad(e, s) ==
  LET iter == IF e.given THEN Elems(e.iter) ELSE DOMAIN s.facets
      F == IFacets(s.mesh, s.facets, s.vals, Elems(e.markers), iter)
      S == Sets(s.facets, F)
      n == Len(s.mesh.cells[1]) - 1
      must == F # {} /\ (e.strict => Connected(S, n - 1))
      mustnot == F = {} \/ (e.strict /\ ~Connected(S, 1)) IN
  IF e.out # "ok" THEN Clause(~must, "refused")
  ELSE Clause(~mustnot, "accepted")
       \cup (IF F = {} THEN {} ELSE MortarFaults(e.r, s.mesh, s.facets, s.vals, e.markers, iter))
       \cup Clause(e.after.mesh = s.mesh /\ e.after.vals = s.vals, "touched")

\* trace of a linear function from sub-mesh i over one colour (0: from the background, over all)
TraceBad(e, s) ==
  IF e.out # "ok" THEN {"trace-refused"} ELSE
  LET f(p) == DotV(e.a, p)
      val(c) == LET RECURSIVE Sm(_)
                    Sm(V) == IF V = {} THEN 0 ELSE LET v == CHOOSE w \in V : TRUE IN f(s.iface.x[v]) + Sm(V \ {v}) IN Sm(VSet(s.iface.cells[c])) IN
  Clause(Len(e.val) = Len(s.iface.cells) /\ \A c \in DOMAIN e.val :
     e.val[c] = (IF e.color = -1 \/ s.iface.mark[c] = e.color THEN val(c) ELSE 0), "trace")

Step(e, s) ==
  CASE e.ev = "mesh" -> [bad |-> Clause(IsEntityTable(e.facets, [x |-> e.x, cells |-> e.cells], Len(e.cells[1]) - 2), "driver"),
                         s |-> [mesh |-> [x |-> e.x, cells |-> e.cells], facets |-> e.facets, vals |-> e.vals]]
    [] e.ev = "split" -> [bad |-> SplitBad(e, s),
                          s |-> IF e.out = "ok" THEN [mesh |-> s.mesh, facets |-> s.facets, vals |-> s.vals, iface |-> e.r.iface] ELSE s]
    [] e.ev = "trace" -> [bad |-> TraceBad(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
