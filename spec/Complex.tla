------------------------------ MODULE Complex -------------------------------
(* Simplicial complexes as the recorder sees them.  A mesh is a record      *)
(* [x |-> Seq of integer points, cells |-> Seq of Seq of vertex numbers];   *)
(* an entity table is a Seq of Seq of vertex numbers.  A map from a mesh to *)
(* its parent is a sequence of images (0: no image).                        *)
EXTENDS Common

VSet(ent) == Elems(ent)
Verts(cells) == UNION {VSet(cells[c]) : c \in DOMAIN cells}
Faces(S, dim) == {F \in SUBSET S : Cardinality(F) = dim + 1}
FaceSet(cells, dim) == UNION {Faces(VSet(cells[c]), dim) : c \in DOMAIN cells}

\* the table lists every face of the dimension once
IsEntityTable(ents, mesh, dim) ==
  LET S == {VSet(ents[e]) : e \in DOMAIN ents} IN
  /\ S = FaceSet(mesh.cells, dim)
  /\ Cardinality(S) = Len(ents)

Injective(map) == Cardinality(Elems(map)) = Len(map)
Total1(map, n, m) == Len(map) = n /\ \A i \in 1..n : map[i] \in 1..m

\* vertices go to vertices with the same coordinates
SamePlaces(sub, vmap, par) == \A v \in DOMAIN vmap : sub.x[v] = par.x[vmap[v]]
\* cells go to entities made of the images of their vertices
Incident(sub, vmap, cmap, ents) ==
  \A c \in DOMAIN cmap : {vmap[v] : v \in VSet(sub.cells[c])} = VSet(ents[cmap[c]])

Cofaces(cells, F) == {c \in DOMAIN cells : F \subseteq VSet(cells[c])}

\* ---------------------------------------------------------------- exact geometry (integers)
Det2(a, b) == a[1] * b[2] - a[2] * b[1]
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Edge(x, a, b) == SubV(x[b], x[a])
\* n! times the signed volume of a simplex with as many dimensions as its space
SVol(x, cell) ==
  CASE Len(cell) = 2 -> x[cell[2]][1] - x[cell[1]][1]
    [] Len(cell) = 3 -> Det2(Edge(x, cell[1], cell[2]), Edge(x, cell[1], cell[3]))
    [] Len(cell) = 4 -> Det3(Edge(x, cell[1], cell[2]), Edge(x, cell[1], cell[3]), Edge(x, cell[1], cell[4]))
Vol(x, cell) == AbsN(SVol(x, cell))
=============================================================================
