------------------------------ MODULE Transfer ------------------------------
(* Moving piecewise polynomial functions between meshes of one dimension    *)
(* (restriction, injection, interpolation), lifting from an interface and   *)
(* extending from a line by nearest points.                                 *)
EXTENDS TraceOp

With(s, j, y) == [s EXCEPT ![j] = y]
\* n! times the signed volume of the simplex with the points p
DetP(p) == SVol(p, [i \in DOMAIN p |-> i])
Points(m, c) == [j \in DOMAIN m.cells[c] |-> m.x[m.cells[c][j]]]
\* barycentric coordinates of x times the volume (>= 0 inside)
Bary(m, c, x) == LET p == Points(m, c)
                     d == DetP(p) IN [j \in DOMAIN p |-> (IF d > 0 THEN 1 ELSE -1) * DetP(With(p, j, x))]
Inside(m, c, x) == LET b == Bary(m, c, x) IN \A j \in DOMAIN b : b[j] >= 0
At(m, x) == {c \in DOMAIN m.cells : Inside(m, c, x)}
\* the cells with all of a cell of the other mesh
Hosts(m, to, c) == {d \in DOMAIN m.cells : \A v \in VSet(to.cells[c]) : Inside(m, d, to.x[v])}

\* val (times S) is what the function u of the mesh m has at x, component i, in the cell c
Is(m, u, c, x, i, S, val) ==
  IF u.kind = "vertices" THEN
    LET b == Bary(m, c, x)
        g(j) == b[j] * u.data[m.cells[c][j]][i]
        vol(j) == b[j]
    IN val * SumTo(vol, Len(b)) = S * SumTo(g, Len(b))
  ELSE val = S * (IF u.kind = "cells" THEN Poly(u.data[c][i], x) ELSE Poly(u.data[i], x))

\* the admissible values on the cell c of the mesh `to`: from the cell which has it or,
\* where cells share values, from any cell at the point
Moved(m, to, u, c, strict, S, entries) ==
  IF strict
  THEN \E d \in Hosts(m, to, c) : \A k \in DOMAIN entries : Is(m, u, d, entries[k][1], entries[k][2], S, entries[k][3])
  ELSE \A k \in DOMAIN entries : \E d \in At(m, entries[k][1]) : Is(m, u, d, entries[k][1], entries[k][2], S, entries[k][3])

\* the points which carry values of continuous functions of degree 1 and 2
Nodes(m, degree) ==
  Elems(m.x) \cup IF degree = 1 THEN {} ELSE
    {[i \in DOMAIN m.x[1] |-> (m.x[p[1]][i] + m.x[p[2]][i]) \div 2] :
       p \in {q \in (1..Len(m.x)) \X (1..Len(m.x)) : q[1] < q[2] /\ \E c \in DOMAIN m.cells : {q[1], q[2]} \subseteq VSet(m.cells[c])}}
\* lifting from the interface em: the values there, nothing elsewhere
Lifted(em, u, degree, entries) ==
  \A k \in DOMAIN entries :
    entries[k][3] = IF entries[k][1] \in Nodes(em, degree) THEN Poly(u.data[entries[k][2]], entries[k][1]) ELSE 0

Dist2(a, b) == LET d == SubV(a, b) IN DotV(d, d)
Nearest(pts, x) == {p \in pts : \A q \in pts : Dist2(p, x) <= Dist2(q, x)}
Extended(pts, u, entries) ==
  \A k \in DOMAIN entries : \E p \in Nearest(pts, entries[k][1]) : entries[k][3] = Poly(u.data[entries[k][2]], p)
=============================================================================
