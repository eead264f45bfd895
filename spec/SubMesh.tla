------------------------------ MODULE SubMesh -------------------------------
(* Extraction of embedded and sub-domain meshes.                            *)
EXTENDS Complex

Tagged(vals, tags) == {e \in DOMAIN vals : vals[e] \in tags}
Used(ents, vals, tags) == UNION {VSet(ents[e]) : e \in Tagged(vals, tags)}

\* Is r = [x, cells, mark, vmap, cmap] the mesh of the tagged entities of par?
\* The set of reasons why not.
ExtractionFaults(r, par, ents, vals, tags) ==
  LET T == Tagged(vals, tags)
      U == Used(ents, vals, tags)
      nv == Len(r.x)
      nc == Len(r.cells)
      vok == Total1(r.vmap, nv, Len(par.x))
      cok == Total1(r.cmap, nc, Len(ents)) IN
  Clause(vok /\ cok, "maps")
  \cup (IF ~(vok /\ cok) THEN {} ELSE
       Clause(Injective(r.cmap) /\ Elems(r.cmap) = T, "cells")
  \cup Clause(Injective(r.vmap) /\ Elems(r.vmap) = U, "vertices")
  \cup Clause(\A c \in DOMAIN r.cells : VSet(r.cells[c]) \subseteq 1..nv, "ids")
  \cup Clause((\A c \in DOMAIN r.cells : VSet(r.cells[c]) \subseteq 1..nv) => Incident(r, r.vmap, r.cmap, ents), "incidence")
  \cup Clause(SamePlaces(r, r.vmap, par), "coordinates")
  \cup Clause(Len(r.mark) = nc /\ \A c \in DOMAIN r.cmap : c \in DOMAIN r.mark => r.mark[c] = vals[r.cmap[c]], "markers"))

\* common part of two sub-domain meshes of one mesh: mapped to the cells of both
OverlapFaults(r, m1, m2, tag) ==
  ExtractionFaults([r EXCEPT !.vmap = r.vmap1, !.cmap = r.cmap1], m1, m1.cells, m1.mark, {tag})
  \cup {"second-" \o f : f \in
        ExtractionFaults([r EXCEPT !.vmap = r.vmap2, !.cmap = r.cmap2], m2, m2.cells, m2.mark, {tag})}

\* facets of the mesh, on demand those with two cells only
SkeletonVals(ents, cells, bdry) ==
  [e \in DOMAIN ents |-> IF bdry \/ Cardinality(Cofaces(cells, VSet(ents[e]))) = 2 THEN 1 ELSE 0]
=============================================================================
