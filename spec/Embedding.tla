----------------------------- MODULE Embedding ------------------------------
(* Embedding of a mesh into backgrounds computed from geometry.  What is    *)
(* known of an embedding is a pair of partial maps (0: unknown); geometry   *)
(* alone decides what they may contain.                                     *)
EXTENDS Complex

\* background vertices at the place of vertex v
Places(em, bg, v) == {w \in DOMAIN bg.x : bg.x[w] = em.x[v]}
\* background entities a cell coincides with
Images(em, bg, c) ==
  LET P == [v \in VSet(em.cells[c]) |-> Places(em, bg, v)] IN
  IF \E v \in DOMAIN P : P[v] = {} THEN {}
  ELSE LET S == {CHOOSE w \in P[v] : TRUE : v \in DOMAIN P} IN
       {e \in DOMAIN bg.ents : VSet(bg.ents[e]) = S}

Embedded(em, bg, c) == Images(em, bg, c) # {}

Nothing(em) == [v |-> [i \in DOMAIN em.x |-> 0], c |-> [i \in DOMAIN em.cells |-> 0]]

\* the maps contain only what geometry says
SoundFaults(em, bg, k) ==
  LET shape == Len(k.v) = Len(em.x) /\ Len(k.c) = Len(em.cells) IN
  IF ~shape THEN {"shape"} ELSE
  Clause(\A v \in DOMAIN k.v : k.v[v] # 0 => k.v[v] \in Places(em, bg, v), "vertex")
  \cup Clause(\A c \in DOMAIN k.c : k.c[c] # 0 => k.c[c] \in Images(em, bg, c), "cell")

\* the cells and their vertices are mapped
CompleteFaults(em, k, cells) ==
  Clause(\A c \in cells : k.c[c] # 0, "missing-cell")
  \cup Clause(\A c \in cells : \A v \in VSet(em.cells[c]) : k.v[v] # 0, "missing-vertex")

GrowFaults(old, new) ==
  Clause((\A v \in DOMAIN old.v : old.v[v] # 0 => new.v[v] = old.v[v]) /\
         (\A c \in DOMAIN old.c : old.c[c] # 0 => new.c[c] = old.c[c]), "lost")

\* request of some cells: known old -> new with outcome ok or not
RequestFaults(em, bg, cells, old, new, ok) ==
  LET sound == SoundFaults(em, bg, new)
      good == \A c \in cells : Embedded(em, bg, c) IN
  sound
  \cup (IF "shape" \in sound THEN {} ELSE GrowFaults(old, new))
  \cup (IF good /\ ~ok THEN {"refused"} ELSE {})
  \cup (IF good /\ ok /\ "shape" \notin sound THEN CompleteFaults(em, new, cells) ELSE {})

CellsOf(em, tags) == {c \in DOMAIN em.cells : em.mark[c] \in tags}
=============================================================================
