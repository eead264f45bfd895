------------------------------- MODULE Mortar -------------------------------
(* Splitting a marked mesh into sub-meshes and the interface between them.   *)
EXTENDS SubMesh

\* the two cells of a facet, if there are two
TwoSided(mesh, facets, f) == Cardinality(Cofaces(mesh.cells, VSet(facets[f]))) = 2
TagsAt(mesh, facets, vals, f) == {vals[c] : c \in Cofaces(mesh.cells, VSet(facets[f]))}
\* facets of the iteration between two different wanted tags
IFacets(mesh, facets, vals, tags, iter) ==
  {f \in iter : LET T == TagsAt(mesh, facets, vals, f) IN Cardinality(T) = 2 /\ T \subseteq tags}

\* connected when consecutive entities share k vertices
RECURSIVE Grown(_, _, _)
Grown(reach, rest, k) ==
  LET near == {s \in rest : \E r \in reach : Cardinality(r \cap s) >= k} IN
  IF near = {} THEN reach ELSE Grown(reach \cup near, rest \ near, k)
Connected(S, k) == S = {} \/ LET a == CHOOSE s \in S : TRUE IN Grown({a}, S \ {a}, k) = S
Sets(facets, F) == {VSet(facets[f]) : f \in F}

\* r = [subs, iface (x, cells, mark, vmap, cmap), colors (Seq of Seq of positions in markers), maps (one partial map per sub-mesh)]
\* markers: sequence of tags
MortarFaults(r, mesh, facets, vals, markers, iter) ==
  LET tags == Elems(markers)
      F == IFacets(mesh, facets, vals, tags, iter)
      Pos(t) == CHOOSE i \in DOMAIN markers : markers[i] = t
      subs == Len(r.subs) = Len(markers)
      tdim == Len(mesh.cells[1]) - 1
      colsok == \A c \in DOMAIN r.colors : Len(r.colors[c]) = 2 /\ Elems(r.colors[c]) \subseteq DOMAIN markers
      markok == \A c \in DOMAIN r.iface.mark : r.iface.mark[c] + 1 \in DOMAIN r.colors
      shape == Len(r.iface.mark) = Len(r.iface.cells) /\ Len(r.iface.cmap) = Len(r.iface.cells)
      \* the interface as mesh of facets: its markers are checked through the colours
      iface == ExtractionFaults([r.iface EXCEPT !.mark = [c \in DOMAIN r.iface.cells |-> 1]], mesh, facets,
                                [f \in DOMAIN facets |-> IF f \in F THEN 1 ELSE 0], {1})
      PairOf(c) == {Pos(t) : t \in TagsAt(mesh, facets, vals, r.iface.cmap[c])}
      CellX(c) == {r.iface.x[v] : v \in VSet(r.iface.cells[c])} IN
  Clause(subs, "submeshes")
  \cup (IF subs THEN {"sub-" \o q : q \in UNION {ExtractionFaults(r.subs[i], mesh, mesh.cells, vals, {markers[i]}) : i \in DOMAIN markers}} ELSE {})
  \cup {"interface-" \o q : q \in iface}
  \cup Clause(shape /\ colsok /\ markok, "colours")
  \cup (IF iface = {} /\ shape /\ colsok /\ markok THEN
        Clause(\A c \in DOMAIN r.iface.cells : Elems(r.colors[r.iface.mark[c] + 1]) = PairOf(c), "pair")
        \cup Clause({Elems(r.colors[k]) : k \in DOMAIN r.colors} = {PairOf(c) : c \in DOMAIN r.iface.cells}
                    /\ Cardinality({Elems(r.colors[k]) : k \in DOMAIN r.colors}) = Len(r.colors), "colour-map")
        \cup (IF ~subs THEN {} ELSE
              Clause(\A i \in DOMAIN markers : \A c \in DOMAIN r.iface.cells : (i \in PairOf(c)) = (r.maps[i][c] # 0), "mapped")
              \cup Clause(\A i \in DOMAIN markers : \A c \in DOMAIN r.iface.cells :
                    r.maps[i][c] # 0 =>
                       /\ r.maps[i][c] \in DOMAIN r.facets[i]
                       /\ {r.subs[i].x[v] : v \in VSet(r.facets[i][r.maps[i][c]])} = CellX(c), "coincide")
              \cup Clause(\A i \in DOMAIN markers : \A v \in DOMAIN r.vmaps[i] : r.vmaps[i][v] # 0 =>
                       r.vmaps[i][v] \in DOMAIN r.subs[i].x /\ r.subs[i].x[r.vmaps[i][v]] = r.iface.x[v], "vertex"))
        ELSE {})
=============================================================================
