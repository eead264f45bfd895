------------------------------- MODULE Normals ------------------------------
(* Normals of hypersurfaces and tangents of curves.                         *)
EXTENDS TraceOp, Integers

CrossP(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Right(e) == <<e[2], -e[1]>>
Neg(v) == [i \in DOMAIN v |-> -v[i]]
\* a vector orthogonal to a cell of a hypersurface, as long as (two times) the measure of the cell
Conormal(m, c) ==
  LET p == [j \in DOMAIN m.cells[c] |-> m.x[m.cells[c][j]]] IN
  IF Len(p) = 2 THEN Right(SubV(p[2], p[1])) ELSE CrossP(SubV(p[2], p[1]), SubV(p[3], p[1]))
\* w is one of the two normals (of this length) of the cell
IsNormal(m, c, w) == w = Conormal(m, c) \/ w = Neg(Conormal(m, c))
\* k times the vector from the point o to the midpoint of the cell with k vertices
From(m, c, o) == LET k == Len(m.cells[c])
                     mid(i) == LET g(j) == m.x[m.cells[c][j]][i] IN SumTo(g, k) IN
                 [i \in DOMAIN o |-> mid(i) - k * o[i]]
AwayFrom(m, c, w, o) == DotV(From(m, c, o), w) >= 0
OutOf(bg, cell, em, c, w) == Outward(bg, cell, Image(bg, em, c), w)

\* ------------------------------------------------ curves
Dir(m, d) == SubV(m.x[d[2]], m.x[d[1]])
EdgesAt(E, v) == {e \in E : v \in e}
VertsOf(E) == UNION E
Leaves(E) == {v \in VertsOf(E) : Cardinality(EdgesAt(E, v)) = 1}
RECURSIVE Grow(_, _)
Grow(E, S) == LET T == S \cup UNION {e \in E : e \cap S # {}} IN IF T = S THEN S ELSE Grow(E, T)
Component(E, v) == Grow(E, {v})
Part(E, v) == {e \in E : e \subseteq Component(E, v)}
IsLoop(E) == \A v \in VertsOf(E) : Cardinality(EdgesAt(E, v)) = 2
IsTree(E) == Cardinality(E) = Cardinality(VertsOf(E)) - 1
\* dir: the directed edges (pairs)
In(dir, v) == {d \in dir : d[2] = v}
Out(dir, v) == {d \in dir : d[1] = v}
\* One connected curve: direction is kept where the curve passes through; a tree is run from one of its
\* ends, the given one if there is one
Runs(E, dir, root) ==
  /\ \A v \in VertsOf(E) : Cardinality(EdgesAt(E, v)) = 2 /\ (IsLoop(E) \/ Leaves(E) # {}) => Cardinality(In(dir, v)) = 1
  /\ IsTree(E) => \E r \in (IF root \in VertsOf(E) THEN {root} ELSE Leaves(E)) : \A v \in VertsOf(E) : Cardinality(In(dir, v)) = (IF v = r THEN 0 ELSE 1)
Kept(E, dir, root) == \A v \in VertsOf(E) : LET P == Part(E, v) IN Runs(P, {d \in dir : {d[1], d[2]} \in P}, root)

\* ------------------------------------------------ closed polygons in the plane
EdgeSet(m) == {VSet(m.cells[c]) : c \in DOMAIN m.cells}
RECURSIVE Round(_, _)
Round(E, s) ==
  LET N == {v \in VertsOf({e \in E : s[Len(s)] \in e}) : v # s[Len(s)] /\ \A i \in 2..Len(s) : s[i] # v}
      F == IF Len(s) = 1 THEN {CHOOSE v \in N : TRUE} ELSE N \ {s[Len(s) - 1]} IN
  IF Len(s) = Cardinality(E) THEN s
  ELSE Round(E, Append(s, CHOOSE v \in F : v # s[1]))
Cyclic(m) == LET E == EdgeSet(m) IN Round(E, <<CHOOSE v \in VertsOf(E) : TRUE>>)
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
Area2(x, s) == LET g(i) == Cross2(x[s[i]], x[s[(i % Len(s)) + 1]]) IN SumTo(g, Len(s))
\* crossings of the ray from p to the right
Crosses(a, b, p) == /\ (a[2] > p[2]) # (b[2] > p[2])
                    /\ LET d == Cross2(SubV(b, a), SubV(p, a)) IN IF b[2] > a[2] THEN d > 0 ELSE d < 0
InsidePolygon(m, p) == Cardinality({c \in DOMAIN m.cells : Crosses(m.x[m.cells[c][1]], m.x[m.cells[c][2]], p)}) % 2 = 1
\* the normal of the cell out of the polygon
PolygonNormal(m, s, c) ==
  LET a == m.cells[c][1]
      b == m.cells[c][2]
      i == CHOOSE i \in DOMAIN s : s[i] = a
      e == IF s[(i % Len(s)) + 1] = b THEN SubV(m.x[b], m.x[a]) ELSE SubV(m.x[a], m.x[b]) IN
  IF Area2(m.x, s) > 0 THEN Right(e) ELSE Neg(Right(e))
=============================================================================
