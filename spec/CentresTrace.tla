---------------------------- MODULE CentresTrace ----------------------------
EXTENDS Centres, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Near(a, b) == a # BAD /\ AbsN(a - b) <= 4
NearV(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN w : Near(v[i], w[i])
Minus(w) == [i \in DOMAIN w |-> -w[i]]

\* e.val: per cell, or per facet (e.facets) the values read from each of its cells
Cell(e, s) ==
  Clause(Len(e.val) = Len(s.cells) /\ \A c \in DOMAIN s.cells : LET q == CentreOf(s, e.kind, c) IN e.val[c] = <<q[1], q[2]>>, "cell " \o e.kind)
OnFacets(e, s, Good(_, _)) ==
  /\ Len(e.val) = Len(e.facets)
  /\ IsEntityTable(e.facets, s, Len(s.cells[1]) - 2)
  /\ \A f \in DOMAIN e.facets : LET F == VSet(e.facets[f]) IN Len(e.val[f]) >= 1 /\ \A i \in DOMAIN e.val[f] : Good(F, e.val[f][i])
Facet(e, s) == LET g(F, v) == v = FacetCentre(s, F)[1] IN Clause(OnFacets(e, s, g), "facet")
Vector(e, s) ==
  LET g(F, v) == LET w == CentreVec(s, e.kind, F) IN
                 NearV(v, w) \/ (Cardinality(Cofaces(s.cells, F)) = 2 /\ NearV(v, Minus(w))) IN
  Clause(OnFacets(e, s, g), "vector " \o e.kind)
Distance(e, s) == LET g(F, v) == NearV(v, <<Norm(CentreVec(s, e.kind, F))>>) IN Clause(OnFacets(e, s, g), "distance " \o e.kind)
Through(e, s) == LET g(F, v) == NearV(v, <<ThroughFacet(s, e.kind, F)>>) IN Clause(OnFacets(e, s, g), "through " \o e.kind)

Ask(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(e.after = s, "mesh changed") \cup
  (CASE e.what = "cell" -> Cell(e, s)
     [] e.what = "facet" -> Facet(e, s)
     [] e.what = "vector" -> Vector(e, s)
     [] e.what = "distance" -> Distance(e, s)
     [] e.what = "through" -> Through(e, s))

Step(e, s) ==
  CASE e.ev = "mesh" -> [bad |-> Clause(Fine(e.mesh), "domain"), s |-> e.mesh]
    [] e.ev = "move" -> [bad |-> {}, s |-> Moved(s, e.v, e.d)]
    [] e.ev = "ask" -> [bad |-> Ask(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
