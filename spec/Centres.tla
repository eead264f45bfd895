------------------------------ MODULE Centres -------------------------------
(* Centres of the cells and facets of a simplicial mesh with integer        *)
(* vertices, which may be moved.  A rational point is a pair of a scaled    *)
(* point and its scale.                                                     *)
EXTENDS Complex

RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET a == Min(S) IN <<a>> \o SortSet(S \ {a})

\* m = [x |-> points, cells |-> sequences of vertices]
Pts(m, c) == [i \in DOMAIN m.cells[c] |-> m.x[m.cells[c][i]]]
Span(p) == [i \in 1..(Len(p) - 1) |-> SubV(p[i + 1], p[1])]
GramM(u) == [i \in DOMAIN u |-> [j \in DOMAIN u |-> DotV(u[i], u[j])]]
Det33(A) == A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2]) - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1])
           + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
DetN(A) == CASE Len(A) = 1 -> A[1][1]
             [] Len(A) = 2 -> A[1][1] * A[2][2] - A[1][2] * A[2][1]
             [] Len(A) = 3 -> Det33(A)
\* the matrix with its column k replaced
Column(A, k, b) == [i \in DOMAIN A |-> [A[i] EXCEPT ![k] = b[i]]]

\* the circumcentre v0 + sum y_k u_k with A y = diag(A)/2, A the Gram matrix, by Cramer's rule
CircumScale(p) == 2 * DetN(GramM(Span(p)))
CircumPoint(p) ==
  LET u == Span(p)
      A == GramM(u)
      b == [i \in DOMAIN A |-> A[i][i]]
      y == [k \in DOMAIN u |-> DetN(Column(A, k, b))]
      d == CircumScale(p) IN
  [j \in DOMAIN p[1] |-> LET g(k) == y[k] * u[k][j] IN d * p[1][j] + SumTo(g, Len(u))]
SumPts(p) == [j \in DOMAIN p[1] |-> LET g(i) == p[i][j] IN SumTo(g, Len(p))]

\* the centre of one kind of a cell, as point and scale
CentreOf(m, kind, c) == IF kind = "circum" THEN <<CircumPoint(Pts(m, c)), CircumScale(Pts(m, c))>>
                        ELSE <<SumPts(Pts(m, c)), Len(m.cells[c])>>
FacetCentre(m, F) == LET s == SortSet(F)
                         p == [i \in DOMAIN s |-> m.x[s[i]]] IN <<SumPts(p), Len(s)>>

\* numbers are compared as multiples of 1/FP of the unit
FP == 1024
Round(a, d) == LET q == IF d > 0 THEN d ELSE -d
                   s == IF d > 0 THEN a ELSE -a IN (2 * s + q) \div (2 * q)
AsFP(pt) == [j \in DOMAIN pt[1] |-> Round(FP * pt[1][j], pt[2])]

\* the largest r with r*r <= n
RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET k == (lo + hi) \div 2 IN IF k * k <= n THEN Bisect(n, k, hi) ELSE Bisect(n, lo, k)
ISqrt(n) == Bisect(n, 0, 46341)
Norm(v) == ISqrt(DotV(v, v))

\* the vector which belongs to a facet: between the centres of its cells (either way), or from the centre of the facet to that of its cell
CentreVec(m, kind, F) ==
  LET q == SortSet(Cofaces(m.cells, F)) IN
  SubV(AsFP(CentreOf(m, kind, q[1])), IF Len(q) = 2 THEN AsFP(CentreOf(m, kind, q[2])) ELSE AsFP(FacetCentre(m, F)))
\* the length of the way through the centre of the facet
ThroughFacet(m, kind, F) ==
  LET q == SortSet(Cofaces(m.cells, F))
      g(i) == Norm(SubV(AsFP(CentreOf(m, kind, q[i])), AsFP(FacetCentre(m, F)))) IN SumTo(g, Len(q))

\* meshes the construction is meant for: proper cells, at most two at a facet, circumcentres within reach
Bound == 8
Fine(m) ==
  /\ \A c \in DOMAIN m.cells : LET p == Pts(m, c)
                                   d == CircumScale(p) IN
       /\ d > 0 /\ d <= 40000
       /\ \A i \in DOMAIN p : \A j \in DOMAIN p[i] : AbsN(p[i][j]) <= 4
       /\ LET q == CircumPoint(p) IN \A j \in DOMAIN q : AbsN(q[j]) <= Bound * d /\ AbsN(q[j]) < 400000
  /\ \A F \in FaceSet(m.cells, Len(m.cells[1]) - 2) : Cardinality(Cofaces(m.cells, F)) <= 2

\* the moves of one vertex
Moved(m, v, d) == [m EXCEPT !.x[v] = AddV(m.x[v], d)]
=============================================================================
