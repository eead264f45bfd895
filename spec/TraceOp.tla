------------------------------ MODULE TraceOp -------------------------------
(* Codimension one traces of piecewise polynomial functions.                *)
(* A polynomial is a sequence of monomials <<coef, e1, .., ed>>.            *)
EXTENDS Complex

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Mono(m, x) == LET g(i) == Pow(x[i], m[i + 1])
                  RECURSIVE P(_)
                  P(i) == IF i = 0 THEN 1 ELSE P(i - 1) * g(i)
              IN m[1] * P(Len(x))
Poly(p, x) == LET g(i) == Mono(p[i], x) IN SumTo(g, Len(p))

\* background vertices of a cell of the embedded mesh
Image(bg, em, c) == {CHOOSE w \in DOMAIN bg.x : bg.x[w] = em.x[v] : v \in VSet(em.cells[c])}
Apex(bg, cell, F) == CHOOSE w \in VSet(bg.cells[cell]) : w \notin F

\* The normal points out of the cell
Outward(bg, cell, F, n) ==
  LET w == CHOOSE w \in F : TRUE IN DotV(n, SubV(bg.x[w], bg.x[Apex(bg, cell, F)])) > 0

\* the cell a one-sided trace looks at: the normal points out of the + side
SideCell(bg, F, n, side) ==
  LET Cs == Cofaces(bg.cells, F) IN
  IF Cardinality(Cs) = 1 THEN CHOOSE c \in Cs : TRUE
  ELSE CHOOSE c \in Cs : Outward(bg, c, F, n) = (side = "+")

\* Values of a function (component i at the point x) seen from a cell
ValueFrom(bg, u, cell, F, x, i) ==
  CASE u.kind = "cells" -> Poly(u.data[cell][i], x)              \* a polynomial per cell
    [] u.kind = "global" -> Poly(u.data[i], x)
    [] u.kind = "vertices" -> u.data[CHOOSE w \in F : bg.x[w] = x][i]
    [] u.kind = "facets" -> u.data[CHOOSE k \in DOMAIN u.facets : VSet(u.facets[k]) = F][i]

\* Admissible values on a cell of the embedded mesh: the set of functions [entry -> value]
\* (twice the value for the average)
Expected(bg, em, u, c, n, restr, entries) ==
  LET F == Image(bg, em, c)
      From(cell) == [k \in DOMAIN entries |-> ValueFrom(bg, u, cell, F, entries[k][1], entries[k][2])]
      P == From(SideCell(bg, F, n, "+"))
      M == From(SideCell(bg, F, n, "-"))
      bdry == Cardinality(Cofaces(bg.cells, F)) = 1 IN
  CASE restr = "" -> {From(cell) : cell \in Cofaces(bg.cells, F)}
    [] restr = "+" -> {P}
    [] restr = "-" -> {M}
    [] restr = "avg" -> {[k \in DOMAIN entries |-> P[k] + M[k]]}
    [] restr = "jump" -> {IF bdry THEN P ELSE [k \in DOMAIN entries |-> P[k] - M[k]]}
=============================================================================
