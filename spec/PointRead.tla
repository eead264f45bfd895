----------------------------- MODULE PointRead ------------------------------
(* Reading a function, or its derivative in a direction, at a vertex from a *)
(* chosen cell; on a curve the gradient is the one along the curve.         *)
EXTENDS Transfer

\* derivative of a monomial <<coef, e1, ..>> and a polynomial
DMono(m, i) == IF m[i + 1] = 0 THEN <<>> ELSE <<[m EXCEPT ![1] = @ * m[i + 1], ![i + 1] = @ - 1]>>
DPoly(p, i) == Flat([k \in DOMAIN p |-> DMono(p[k], i)])
Grad(p, x) == [i \in DOMAIN x |-> Poly(DPoly(p, i), x)]

Allowed(m, v, c) == v \in VSet(m.cells[c])
OnCell(u, c, i) == IF u.kind = "cells" THEN u.data[c][i] ELSE u.data[i]
Value(m, u, v, c, i) == IF u.kind = "vertices" THEN u.data[v][i] ELSE Poly(OnCell(u, c, i), m.x[v])
\* the vector along the cell of a curve
Along(m, c) == SubV(m.x[m.cells[c][2]], m.x[m.cells[c][1]])
\* |e|^2 times the derivative along the curve in the direction t
Slope(m, u, v, c, t) ==
  LET e == Along(m, c) IN
  DotV(t, e) * (IF u.kind = "vertices" THEN u.data[m.cells[c][2]][1] - u.data[m.cells[c][1]][1]
                ELSE DotV(e, Grad(OnCell(u, c, 1), m.x[v])))
\* (d + 1)! times the integral of a function given at vertices (component i)
Content(m, u, i) ==
  LET d == Len(m.cells[1]) - 1
      vol(c) == AbsN(SVol(m.x, m.cells[c]))
      s(c) == LET g(j) == u.data[m.cells[c][j]][i] IN SumTo(g, d + 1)
      h(c) == vol(c) * s(c) IN SumTo(h, Len(m.cells))
=============================================================================
