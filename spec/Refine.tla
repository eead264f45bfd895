------------------------------- MODULE Refine -------------------------------
(* Refinements of a simplicial mesh by inner points and by the dual          *)
(* construction.  A refined cell is described by <<set of its points, the    *)
(* number of the cell of the root mesh it belongs to>>.                      *)
EXTENDS Complex, SequencesExt

Points(m, c) == {m.x[v] : v \in VSet(m.cells[c])}
PCells(m, cmap) == {<<Points(m, c), cmap[c]>> : c \in DOMAIN m.cells}
RootCells(m) == {<<Points(m, c), c>> : c \in DOMAIN m.cells}

RECURSIVE SumPts(_)
SumPts(P) == LET p == CHOOSE q \in P : TRUE IN IF P = {p} THEN p ELSE AddV(p, SumPts(P \ {p}))
DivP(p, n) == [i \in DOMAIN p |-> p[i] \div n]
CentroidOf(P) == DivP(SumPts(P), Cardinality(P))

Dist2(p, q) == LET d == SubV(p, q) IN DotV(d, d)
Equidistant(c, P) == \A p, q \in P : Dist2(c, p) = Dist2(c, q)

\* joining the faces of a cell with its centre
StarOf(P, c) == {(P \ {p}) \cup {c} : p \in P}
\* centre, middle of an edge, end of the edge (triangles)
DualOf(P, c) == {{c, DivP(AddV(e[1], e[2]), 2), e[1]} : e \in {d \in P \X P : d[1] # d[2]}}
Children(kind, P, c) == IF kind = "star" THEN StarOf(P, c) ELSE DualOf(P, c)

RECURSIVE RefineCells(_, _, _, _)
RefineCells(cells, kind, Centre(_), n) ==
  IF n = 0 THEN cells
  ELSE RefineCells(UNION {{<<K, pc[2]>> : K \in Children(kind, pc[1], Centre(pc[1]))} : pc \in cells}, kind, Centre, n - 1)

\* ---------------------------------------------------------------- what every refinement has to satisfy
\* (meshes of full dimension; cmap: child cell -> parent cell)
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
SDet(pts) ==
  CASE Len(pts) = 2 -> pts[2][1] - pts[1][1]
    [] Len(pts) = 3 -> Det2(SubV(pts[2], pts[1]), SubV(pts[3], pts[1]))
    [] Len(pts) = 4 -> Det3(SubV(pts[2], pts[1]), SubV(pts[3], pts[1]), SubV(pts[4], pts[1]))
CellPts(m, c) == [k \in DOMAIN m.cells[c] |-> m.x[m.cells[c][k]]]
\* the point is in the closed simplex: replacing any corner by it keeps the orientation
Inside(pts, p) == LET s == Sgn(SDet(pts)) IN \A k \in DOMAIN pts : Sgn(SDet([pts EXCEPT ![k] = p])) \in {0, s}
Contained(par, child, cmap) ==
  \A c \in DOMAIN child.cells : LET P == CellPts(par, cmap[c]) IN \A p \in Points(child, c) : Inside(P, p)
NonDegenerate(m) == \A c \in DOMAIN m.cells : SVol(m.x, m.cells[c]) # 0
Fills(par, child, cmap) ==
  \A q \in DOMAIN par.cells :
    LET K == {c \in DOMAIN cmap : cmap[c] = q} IN MapThenSumSet(LAMBDA c : Vol(child.x, child.cells[c]), K) = Vol(par.x, par.cells[q])

Without(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
FacetPairs(m) == UNION {{<<VSet(m.cells[c]) \ {v}, c, v>> : v \in VSet(m.cells[c])} : c \in DOMAIN m.cells}
OnBoundary(par, child, F) ==
  \E q \in DOMAIN par.cells : \E k \in DOMAIN par.cells[q] :
     LET G == Without(par.cells[q], k) IN
     /\ Cardinality(Cofaces(par.cells, VSet(G))) = 1
     /\ \A v \in F : SDet([i \in DOMAIN par.cells[q] |-> IF i = k THEN child.x[v] ELSE par.x[par.cells[q][i]]]) = 0
\* facets are shared by two cells on their two sides, or lie on the boundary of the parent
Conforming(par, child) ==
  LET FP == FacetPairs(child)
      by == [F \in {t[1] : t \in FP} |-> {t \in FP : t[1] = F}] IN
  \A F \in DOMAIN by :
    LET T == by[F]
        fs == SetToSeq(F)
        side(t) == Sgn(SDet([i \in 1..(Len(fs) + 1) |-> IF i <= Len(fs) THEN child.x[fs[i]] ELSE child.x[t[3]]])) IN
    CASE Cardinality(T) = 1 -> OnBoundary(par, child, F)
      [] Cardinality(T) = 2 -> \A t, u \in T : t # u => side(t) = -side(u)
      [] OTHER -> FALSE
Tiles(par, child, cmap) == NonDegenerate(child) /\ Contained(par, child, cmap) /\ Fills(par, child, cmap) /\ Conforming(par, child)

UsesAll(m) == Verts(m.cells) = DOMAIN m.x
NoTwins(m) == Cardinality(Elems(m.x)) = Len(m.x)
\* vmap: sequence of <<child vertex, parent vertex>>
VerticesStay(par, child, vmap) ==
  /\ {vmap[i][2] : i \in DOMAIN vmap} = DOMAIN par.x /\ Len(vmap) = Len(par.x)
  /\ \A i \in DOMAIN vmap : vmap[i][1] \in DOMAIN child.x /\ child.x[vmap[i][1]] = par.x[vmap[i][2]]
=============================================================================
