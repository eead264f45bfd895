----------------------------- MODULE CentresMC ------------------------------
(* Vertices of small meshes are moved and centres asked for.  Mode "small": *)
(* all short histories, with the laws of the centres; mode "sim": long      *)
(* histories for the code.                                                  *)
EXTENDS Centres, Json

CONSTANTS Mode, MaxOps

\* -------------------------------------------------- meshes to start from
Two == [x |-> <<<<0, 0>>, <<2, 0>>, <<0, 2>>, <<2, 2>>>>, cells |-> <<<<1, 2, 3>>, <<2, 3, 4>>>>]
Fan == [x |-> <<<<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>, <<-2, 1>>, <<-1, -2>>>>, cells |-> <<<<1, 2, 3>>, <<1, 3, 4>>, <<1, 4, 5>>, <<1, 5, 6>>, <<1, 2, 6>>>>]
Strip == [x |-> <<<<0, 0>>, <<2, 0>>, <<1, 2>>, <<3, 2>>, <<4, 0>>, <<-1, 2>>, <<1, 4>>>>, cells |-> <<<<1, 2, 3>>, <<2, 3, 4>>, <<2, 4, 5>>, <<1, 3, 6>>, <<3, 6, 7>>>>]
Tets == [x |-> <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<2, 2, 2>>>>, cells |-> <<<<1, 2, 3, 4>>, <<2, 3, 4, 5>>>>]
Tets3 == [x |-> <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<2, 2, 2>>, <<-1, 1, 1>>>>, cells |-> <<<<1, 2, 3, 4>>, <<2, 3, 4, 5>>, <<1, 3, 4, 6>>>>]
Roof == [x |-> <<<<0, 0, 0>>, <<2, 0, 1>>, <<0, 2, 0>>, <<2, 2, 1>>, <<4, 1, 0>>>>, cells |-> <<<<1, 2, 3>>, <<2, 3, 4>>, <<2, 4, 5>>>>]
Shell == [x |-> <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>>, cells |-> <<<<1, 2, 3>>, <<1, 2, 4>>, <<1, 3, 4>>, <<2, 3, 4>>>>]
Path1 == [x |-> <<<<0>>, <<2>>, <<3>>>>, cells |-> <<<<1, 2>>, <<2, 3>>>>]
Path2 == [x |-> <<<<0, 0>>, <<2, 1>>, <<3, -1>>, <<1, 3>>>>, cells |-> <<<<1, 2>>, <<2, 3>>, <<1, 4>>>>]
Path3 == [x |-> <<<<0, 0, 0>>, <<2, 1, 0>>, <<3, -1, 1>>>>, cells |-> <<<<1, 2>>, <<2, 3>>>>]
Ring == [x |-> <<<<0, 0>>, <<2, 0>>, <<0, 2>>>>, cells |-> <<<<1, 2>>, <<2, 3>>, <<1, 3>>>>]
Meshes == IF Mode = "small" THEN {Two, Roof, Tets, Path2} ELSE {Two, Fan, Strip, Tets, Tets3, Roof, Shell, Path1, Path2, Path3, Ring}

VARIABLES m, hist
vars == <<m, hist>>

td == Len(m.cells[1]) - 1
gd == Len(m.x[1])
Asks == IF td > 1 THEN {"cell", "facet", "vector", "distance", "through"} ELSE {"cell", "facet"}
Kinds == {"centroid", "circum"}

Init == \E h \in Meshes : m = h /\ hist = <<[op |-> "make", x |-> h.x, cells |-> h.cells]>>
Move == \E v \in DOMAIN m.x, j \in 1..gd, s \in {-1, 1} :
          LET d == [i \in 1..gd |-> IF i = j THEN s ELSE 0]
              n == Moved(m, v, d) IN
          /\ Fine(n) /\ m' = n /\ hist' = Append(hist, [op |-> "move", v |-> v, d |-> d])
Ask == /\ Mode = "sim" /\ hist[Len(hist)].op # "ask"
       /\ \E a \in Asks, k \in Kinds : m' = m /\ hist' = Append(hist, [op |-> "ask", what |-> a, kind |-> k])
Stop == /\ Mode = "sim" /\ Len(hist) = MaxOps + 1 /\ m' = m
        /\ PrintT("@@HIST " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "stop"])
Next == (Len(hist) < MaxOps + 1 /\ (Move \/ Ask)) \/ Stop
Spec == Init /\ [][Next]_vars
View == m

Good == Fine(m)
\* -------------------------------------------------- laws of the centres
Cs == DOMAIN m.cells
SqDist(a, b) == DotV(SubV(a, b), SubV(a, b))
Equidistant == \A c \in Cs : LET p == Pts(m, c)
                                 q == CircumPoint(p)
                                 d == CircumScale(p)
                                 \* twice q - (v_i + v_0)/2 is orthogonal to v_i - v_0
                                 g(i) == DotV(SubV(ScaleV(2, q), ScaleV(d, AddV(p[i], p[1]))), SubV(p[i], p[1])) IN
                             \A i \in 2..Len(p) : g(i) = 0
\* the order of the vertices does not matter
Perms(n) == {f \in [1..n -> 1..n] : Cardinality({f[i] : i \in 1..n}) = n}
OrderFree == \A c \in Cs : LET p == Pts(m, c) IN
  \A f \in Perms(Len(p)) : LET q == [i \in DOMAIN p |-> p[f[i]]] IN CircumPoint(q) = CircumPoint(p) /\ CircumScale(q) = CircumScale(p)
\* a mesh in its own plane: the line through two circumcentres is orthogonal to the facet between them
Facets == FaceSet(m.cells, td - 1)
Orthogonal == td = gd => \A F \in Facets :
  LET q == SortSet(Cofaces(m.cells, F))
      s == SortSet(F)
      a == CircumPoint(Pts(m, q[1]))
      da == CircumScale(Pts(m, q[1]))
      b == CircumPoint(Pts(m, q[2]))
      db == CircumScale(Pts(m, q[2])) IN
  Len(q) = 2 => \A i \in 2..Len(s) : DotV(SubV(ScaleV(db \div 2, a), ScaleV(da \div 2, b)), SubV(m.x[s[i]], m.x[s[1]])) = 0
\* the way through the centre of the facet is not shorter (up to rounding), and both agree at the boundary
Detour == td > 1 => \A F \in Facets, k \in Kinds :
  LET t == ThroughFacet(m, k, F)
      d == Norm(CentreVec(m, k, F)) IN
  /\ t >= d - 4
  /\ (Cardinality(Cofaces(m.cells, F)) = 1 => AbsN(t - d) <= 1)
\* moving everything along moves the centres along
Shift == \A c \in Cs : LET p == Pts(m, c)
                           w == [i \in 1..gd |-> i]
                           q == [i \in DOMAIN p |-> AddV(p[i], w)] IN
  CircumPoint(q) = AddV(CircumPoint(p), ScaleV(CircumScale(p), w)) /\ CircumScale(q) = CircumScale(p)
=============================================================================
