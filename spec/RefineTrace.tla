----------------------------- MODULE RefineTrace -----------------------------
(* State: the meshes made so far, the first one given, the others refined.   *)
EXTENDS Refine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

MeshRec(e) == [x |-> e.x, cells |-> e.cells]

\* the circumcentre among the points of the refined mesh
Circum(child, P) == IF Cardinality(P) = 2 THEN CentroidOf(P) ELSE LET C == {q \in Elems(child.x) \ P : Equidistant(q, P)} IN IF C = {} THEN CHOOSE p \in P : TRUE ELSE CHOOSE q \in C : TRUE

RefineBad(e, s) ==
  LET par == s.meshes[e.src] IN
  IF e.valid # (e.out = "ok") THEN {IF e.valid THEN "refused" ELSE "accepted"} ELSE
  IF ~e.valid THEN Clause(e.after = par, "touched") ELSE
  LET ch == MeshRec(e)
      maps == /\ Len(e.cmap) = Len(ch.cells) /\ \A c \in DOMAIN e.cmap : e.cmap[c] \in DOMAIN par.cells
      want == IF e.centre = "centroid" THEN RefineCells(RootCells(par), e.kind, CentroidOf, e.n)
              ELSE LET f(P) == Circum(ch, P) IN RefineCells(RootCells(par), e.kind, f, e.n) IN
  Clause(maps, "maps")
  \cup (IF maps THEN Clause(PCells(ch, e.cmap) = want /\ Cardinality(want) = Len(ch.cells), "cells") ELSE {})
  \cup (IF maps /\ e.full THEN Clause(Tiles(par, ch, e.cmap), "tiles") ELSE {})
  \cup Clause(VerticesStay(par, ch, e.vmap), "vertices")
  \cup Clause(UsesAll(ch) /\ NoTwins(ch), "proper")
  \cup Clause(e.after = par, "touched")

CentresBad(e, s) ==
  LET par == s.meshes[e.src] IN
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(Len(e.pts) = Len(par.cells) /\ \A c \in DOMAIN e.pts :
      IF e.centre = "centroid" THEN e.pts[c] = CentroidOf(Points(par, c))
      ELSE IF Len(par.cells[c]) = 2 THEN e.pts[c] = CentroidOf(Points(par, c)) ELSE Equidistant(e.pts[c], Points(par, c)), "centre")

Step(e, s) ==
  CASE e.ev = "mesh" -> [bad |-> {}, s |-> [meshes |-> <<MeshRec(e)>>]]
    [] e.ev = "refine" -> LET b == RefineBad(e, s) IN
          [bad |-> b, s |-> IF e.out = "ok" THEN [s EXCEPT !.meshes = Append(@, MeshRec(e))] ELSE s]
    [] e.ev = "centres" -> [bad |-> CentresBad(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
