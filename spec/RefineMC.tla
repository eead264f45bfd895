------------------------------ MODULE RefineMC ------------------------------
(* All refinement histories of small meshes: each model step tiles its       *)
(* parent and the root, and the maps compose.                                *)
EXTENDS Refine

CONSTANTS MaxSteps
Square == [x |-> <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>>>, cells |-> <<<<1, 2, 3>>, <<2, 3, 4>>>>]
Strip == [x |-> <<<<0, 0>>, <<2, 0>>, <<1, 1>>, <<3, 1>>, <<1, -1>>>>, cells |-> <<<<3, 1, 2>>, <<2, 4, 3>>, <<5, 2, 1>>>>]
Line == [x |-> <<<<0>>, <<3>>, <<1>>>>, cells |-> <<<<1, 3>>, <<2, 3>>>>]
Tets == [x |-> <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 1>>>>, cells |-> <<<<1, 2, 3, 4>>, <<5, 4, 3, 2>>>>]

VARIABLES root, m, vmap, cmap, steps, last
vars == <<root, m, vmap, cmap, steps, last>>

\* coordinates grow so that the new points are integer
Grow(h, f) == [h EXCEPT !.x = [i \in DOMAIN @ |-> ScaleV(f, @[i])]]
\* the mesh of a set of <<points, root cell>>; old vertices keep their numbers
MeshOf(old, pcs) ==
  LET fresh == SetToSeq(UNION {pc[1] : pc \in pcs} \ Elems(old.x))
      x == old.x \o fresh
      no == [p \in Elems(x) |-> CHOOSE i \in DOMAIN x : x[i] = p]
      s == SetToSeq(pcs) IN
  [m |-> [x |-> x, cells |-> [k \in DOMAIN s |-> SetToSeq({no[p] : p \in s[k][1]})]], cmap |-> [k \in DOMAIN s |-> s[k][2]]]

Init == \E h \in {Square, Strip, Line, Tets} :
   root = h /\ m = h /\ vmap = [i \in DOMAIN h.x |-> <<i, i>>] /\ cmap = [i \in DOMAIN h.cells |-> i] /\ steps = 0 /\ last = [p |-> h, cmap |-> [i \in DOMAIN h.cells |-> i]]
Refine(kind, f) ==
  LET g == Grow(m, f)
      r == MeshOf(g, RefineCells(RootCells(g), kind, CentroidOf, 1)) IN
  /\ root' = Grow(root, f)
  /\ m' = r.m
  /\ cmap' = [c \in DOMAIN r.cmap |-> cmap[r.cmap[c]]]
  /\ last' = [p |-> g, cmap |-> r.cmap]
  /\ UNCHANGED vmap
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ Refine("star", Len(root.cells[1]))
           \/ Len(root.cells[1]) = 3 /\ Refine("dual", 6)
Spec == Init /\ [][Next]_vars

TilesParent == Tiles(last.p, m, last.cmap)
TilesRoot == Tiles(root, m, cmap)
Stay == VerticesStay(root, m, vmap)
Proper == UsesAll(m) /\ NoTwins(m)
=============================================================================
