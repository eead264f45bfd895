---------------------------- MODULE NormalsTrace ----------------------------
EXTENDS Normals, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

\* e.sgn = -1 for the inner normal; e.w the recorded vectors times the length of the conormal
W(e, c) == IF e.sgn = 1 THEN e.w[c] ELSE Neg(e.w[c])
Normal(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  LET ok == Len(e.w) = Len(s.em.cells) /\ \A c \in DOMAIN e.w : IsNormal(s.em, c, e.w[c])
      Cs(c) == Cofaces(s.bg.cells, Image(s.bg, s.em, c))
      The(S) == CHOOSE x \in S : TRUE
      Side(c) ==
        CASE e.mode = "point" -> AwayFrom(s.em, c, W(e, c), e.o)
          [] e.mode = "field" -> DotV(W(e, c), e.field) >= 0
          [] e.mode = "mesh" -> OutOf(s.bg, The(Cs(c)), s.em, c, W(e, c))
          [] e.mode = "facet" -> Cardinality(Cs(c)) = 1 => OutOf(s.bg, The(Cs(c)), s.em, c, W(e, c))
          [] e.mode = "marker" ->
               IF Cardinality(Cs(c)) = 1 THEN OutOf(s.bg, The(Cs(c)), s.em, c, W(e, c))
               ELSE \A a, b \in Cs(c) : e.mark[a] > e.mark[b] => OutOf(s.bg, a, s.em, c, W(e, c)) IN
  Clause(ok, "normal") \cup (IF ok THEN Clause(\A c \in DOMAIN e.w : Side(c), e.mode) ELSE {})

Tangent(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  LET m == s.em
      ok == Len(e.w) = Len(m.cells) /\ \A c \in DOMAIN e.w : e.w[c] = Dir(m, m.cells[c]) \/ e.w[c] = Neg(Dir(m, m.cells[c]))
      d(c) == IF e.w[c] = Dir(m, m.cells[c]) THEN <<m.cells[c][1], m.cells[c][2]>> ELSE <<m.cells[c][2], m.cells[c][1]>> IN
  Clause(ok, "tangent") \cup (IF ok THEN Clause(Kept(EdgeSet(m), {d(c) : c \in DOMAIN m.cells}, e.root), "direction") ELSE {})

Loop(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  LET m == s.em
      q == Cyclic(m)
      in == e.o # <<>> /\ InsidePolygon(m, e.o) IN
  Clause(Len(e.w) = Len(m.cells) /\ \A c \in DOMAIN e.w : e.w[c] = (IF in THEN Neg(PolygonNormal(m, q, c)) ELSE PolygonNormal(m, q, c)), "polygon")
Encloses(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(Len(e.got) = Len(e.pts) /\ \A i \in DOMAIN e.pts : e.got[i] = InsidePolygon(s.em, e.pts[i]), "encloses")

Step(e, s) ==
  CASE e.ev = "mesh" -> [bad |-> {}, s |-> [bg |-> e.bg, em |-> e.em]]
    [] e.ev = "normal" -> [bad |-> Normal(e, s), s |-> s]
    [] e.ev = "tangent" -> [bad |-> Tangent(e, s), s |-> s]
    [] e.ev = "loop" -> [bad |-> Loop(e, s), s |-> s]
    [] e.ev = "encloses" -> [bad |-> Encloses(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
