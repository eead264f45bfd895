------------------------------ MODULE Averages ------------------------------
(* Averages over shapes around a curve, over patches of cells and over      *)
(* domains.  A shape is a circle, a disk, a square or the rim of a square;  *)
(* it lies in the plane through its centre orthogonal to the curve.  D is   *)
(* the square of the radius (the distance of the corners from the centre).  *)
EXTENDS TraceOp

Kinds == {"circle", "disk", "square", "rim"}
N2(n) == DotV(n, n)
\* 12 E[y y^T] = K12 D (I - n n^T/|n|^2) for the offset y from the centre
K12(kind) == CASE kind = "circle" -> 6 [] kind = "disk" -> 3 [] kind = "square" -> 2 [] kind = "rim" -> 4

Degree(m) == LET g(i) == m[i + 1] IN SumTo(g, Len(m) - 1)
\* the two factors of a monomial of degree two
Pair(m) == LET S == {i \in 1..3 : m[i + 1] > 0} IN
           IF Cardinality(S) = 1 THEN <<CHOOSE i \in S : TRUE, CHOOSE i \in S : TRUE>>
           ELSE LET a == CHOOSE i \in S : \A j \in S : i <= j IN <<a, CHOOSE j \in S : j # a>>
\* |n|^2 (I - n n^T/|n|^2)
Plane(n, i, j) == (IF i = j THEN N2(n) ELSE 0) - n[i] * n[j]
Spread(kind, D, n, m) ==
  IF Degree(m) # 2 THEN 0 ELSE LET p == Pair(m) IN m[1] * K12(kind) * D * Plane(n, p[1], p[2])
\* 12 |n|^2 times the average of a polynomial of degree at most two
Avg12(kind, D, n, c, p) == 12 * N2(n) * Poly(p, c) + LET g(k) == Spread(kind, D, n, p[k]) IN SumTo(g, Len(p))

\* 2 |n|^2 times R times the average of v.y/R over the circle is |n|^2 ... : the flux of a field of degree one, per radius R
Lin(p, j) == LET g(k) == IF Degree(p[k]) = 1 /\ p[k][j + 1] = 1 THEN p[k][1] ELSE 0 IN SumTo(g, Len(p))
Flux2(R, n, v) == LET g(i) == LET h(j) == Lin(v[i], j) * Plane(n, i, j) IN SumTo(h, 3) IN R * SumTo(g, 3)

\* size of the shape at the place: an affine radius or the offset of a corner
Radius(s, c) == s.a + DotV(s.b, c)
Size2(s, c) == IF s.kind \in {"circle", "disk"} THEN Radius(s, c) * Radius(s, c) ELSE N2(s.d)

\* the cell is certainly not touched: on one side of the plane or out of reach
OneSide(x, cell, c, n) == (\A v \in VSet(cell) : DotV(n, SubV(x[v], c)) > 0) \/ (\A v \in VSet(cell) : DotV(n, SubV(x[v], c)) < 0)
Lo(x, cell, i) == CHOOSE a \in {x[v][i] : v \in VSet(cell)} : \A v \in VSet(cell) : a <= x[v][i]
Hi(x, cell, i) == CHOOSE a \in {x[v][i] : v \in VSet(cell)} : \A v \in VSet(cell) : a >= x[v][i]
Apart(x, cell, c) == LET g(i) == LET t == MaxN(0, MaxN(Lo(x, cell, i) - c[i], c[i] - Hi(x, cell, i))) IN t * t IN SumTo(g, 3)
Far(x, cell, c, n, s) == OneSide(x, cell, c, n) \/ Apart(x, cell, c) > (IF s.kind = "disk" THEN 2 ELSE 1) * Size2(s, c)

\* ---------------------------------------------------------------- moments in the plane of the shape
\* 10^6 times the average of (a/R)^i (b/R)^j; for squares R is half the side and the sides are along a and b
RECURSIVE OnCircle(_, _)
OnCircle(i, j) == IF i % 2 = 1 \/ j % 2 = 1 THEN 0
                  ELSE IF i = 0 /\ j = 0 THEN 1000000
                  ELSE IF i > 0 THEN (OnCircle(i - 2, j) * (i - 1)) \div (i + j) ELSE (OnCircle(i, j - 2) * (j - 1)) \div (i + j)
Moment(kind, i, j) ==
  IF i % 2 = 1 \/ j % 2 = 1 THEN 0
  ELSE CASE kind = "circle" -> OnCircle(i, j)
         [] kind = "disk" -> (2 * OnCircle(i, j)) \div (i + j + 2)
         [] kind = "square" -> 1000000 \div ((i + 1) * (j + 1))
         [] kind = "rim" -> (1000000 \div (i + 1) + 1000000 \div (j + 1)) \div 2

\* ---------------------------------------------------------------- averages of cellwise linear functions
\* u[c][k]: value at the k-th vertex of cell c; (d + 1) times the integral in units of volume
CellSum(u, c) == SumSeq(u[c])
WSum(m, u, C, w) == LET RECURSIVE S(_)
                        S(X) == IF X = {} THEN 0 ELSE LET c == CHOOSE c \in X : TRUE IN S(X \ {c}) + Vol(m.x, m.cells[c]) * CellSum(u, c) * w[c]
                    IN S(C)
VSum(m, C) == LET RECURSIVE S(_)
                  S(X) == IF X = {} THEN 0 ELSE LET c == CHOOSE c \in X : TRUE IN S(X \ {c}) + Vol(m.x, m.cells[c])
              IN S(C)
Ones(m) == [c \in DOMAIN m.cells |-> 1]
Patch(mark, color) == {c \in DOMAIN mark : mark[c] = color}
\* numerator and denominator of the average over a patch
PatchNum(m, u, C) == WSum(m, u, C, Ones(m))
PatchDen(m, C) == Len(m.cells[1]) * VSum(m, C)
\* patches which share a vertex
Neighbours(m, mark, a, b) == \E c \in Patch(mark, a), d \in Patch(mark, b) : VSet(m.cells[c]) \cap VSet(m.cells[d]) # {}
\* groups of patches treated at once must not be neighbours
GroupsOk(m, mark, colors, groups) == \A a, b \in colors : a # b /\ groups[a] = groups[b] => ~Neighbours(m, mark, a, b)

\* areas of facets in planes (on lines) of the axes
FArea(x, f) ==
  IF Len(f) = 2 THEN LET e == Edge(x, f[1], f[2]) IN AbsN(e[1]) + AbsN(e[2])
  ELSE LET a == Edge(x, f[1], f[2])
           b == Edge(x, f[1], f[3])
       IN AbsN(a[2] * b[3] - a[3] * b[2]) + AbsN(a[3] * b[1] - a[1] * b[3]) + AbsN(a[1] * b[2] - a[2] * b[1])
SurfNum(em, u) == LET g(c) == FArea(em.x, em.cells[c]) * CellSum(u, c) IN SumTo(g, Len(em.cells))
SurfDen(em) == LET g(c) == FArea(em.x, em.cells[c]) IN Len(em.cells[1]) * SumTo(g, Len(em.cells))
=============================================================================
