------------------------------- MODULE Markers ------------------------------
(* Transfer of markers from a mesh to a mesh with (partial) maps into it.    *)
EXTENDS Complex

\* a child: [cells, vmap, cmap] (0: not mapped); entities as sequences of vertex numbers
Mapped(ch, E) == \A v \in E : ch.vmap[v] # 0
ImageOf(ch, E) == {ch.vmap[v] : v \in E}
\* parent entities which the child entity is
Same(ch, E, pents) == IF ~Mapped(ch, E) THEN {} ELSE {p \in DOMAIN pents : VSet(pents[p]) = ImageOf(ch, E)}
\* it lies in a cell of the child which is known in the parent
Reached(ch, E) == \E c \in Cofaces(ch.cells, E) : ch.cmap[c] # 0

\* colour of the child entity after the transfer of the tags over the old colour
Colour(ch, E, pents, pvals, tags, old) ==
  LET S == Same(ch, E, pents) IN
  IF S = {} THEN old ELSE LET p == CHOOSE q \in S : TRUE IN IF pvals[p] \in tags THEN pvals[p] ELSE old

TransferFaults(ch, cents, pents, pvals, tags, old, new) ==
  Clause(Len(new) = Len(cents), "shape")
  \cup Clause(Len(new) = Len(cents) => \A e \in DOMAIN cents :
        LET E == VSet(cents[e])
            want == Colour(ch, E, pents, pvals, tags, old[e]) IN
        \/ new[e] = want
        \/ ~Reached(ch, E) /\ new[e] = old[e], "colour")
=============================================================================
