------------------------------ MODULE Branches ------------------------------
(* Networks of segments: cells are sequences of two vertices.                *)
EXTENDS Complex

Deg(cells, v) == Cardinality({c \in DOMAIN cells : v \in VSet(cells[c])})
Terminals(cells) == {v \in Verts(cells) : Deg(cells, v) # 2}
\* cells linked by a vertex where nothing else ends
Linked(cells, c, d) == \E v \in VSet(cells[c]) \cap VSet(cells[d]) : Deg(cells, v) = 2
RECURSIVE Closure(_, _, _)
Closure(cells, done, front) ==
  IF front = {} THEN done
  ELSE LET new == {d \in DOMAIN cells \ (done \cup front) : \E c \in front : Linked(cells, c, d)} IN
       Closure(cells, done \cup front, new)
PathOf(cells, c) == Closure(cells, {}, {c})
Paths(cells) == {PathOf(cells, c) : c \in DOMAIN cells}

\* ends of a set of cells: vertices which only one of them has
Ends(cells, P) == {v \in UNION {VSet(cells[c]) : c \in P} : Cardinality({c \in P : v \in VSet(cells[c])}) = 1}
IsLoop(cells, P) == Ends(cells, P) = {}

ColourFaults(cells, vals, branches, loops) ==
  LET used == {vals[c] : c \in DOMAIN vals}
      Class(k) == {c \in DOMAIN vals : vals[c] = k} IN
  IF Len(vals) # Len(cells) THEN {"shape"} ELSE
  Clause({Class(k) : k \in used} = Paths(cells), "paths")
  \cup Clause(Elems(branches) \cup Elems(loops) = used /\ Len(branches) + Len(loops) = Cardinality(used), "colours")
  \cup Clause(\A k \in used : (k \in Elems(loops)) = IsLoop(cells, Class(k)), "loops")

\* walk of the set of cells P: sequence of <<cell, forward>>
From(cells, s) == IF s[2] THEN cells[s[1]][1] ELSE cells[s[1]][2]
To(cells, s) == IF s[2] THEN cells[s[1]][2] ELSE cells[s[1]][1]
WalkFaults(cells, P, loop, walk) ==
  Clause(Len(walk) = Cardinality(P) /\ {walk[k][1] : k \in DOMAIN walk} = P, "visits")
  \cup Clause(\A k \in DOMAIN walk : k > 1 => To(cells, walk[k - 1]) = From(cells, walk[k]), "order")
  \cup Clause(walk # <<>> => IF loop THEN To(cells, walk[Len(walk)]) = From(cells, walk[1])
              ELSE {From(cells, walk[1]), To(cells, walk[Len(walk)])} = Ends(cells, P), "ends")
\* a branch starts where more cells meet
StartFault(cells, walk) == Clause(walk # <<>> => Deg(cells, From(cells, walk[1])) >= Deg(cells, To(cells, walk[Len(walk)])), "start")
\* vertices of the walk, one after another; a loop comes back
VertexWalkFaults(cells, P, loop, vs) ==
  Clause(Len(vs) = Cardinality(P) + 1 /\ Elems(vs) = UNION {VSet(cells[c]) : c \in P}
         /\ Cardinality(Elems(vs)) = Len(vs) - (IF loop THEN 1 ELSE 0), "visits")
  \cup Clause(\A k \in DOMAIN vs : k > 1 => \E c \in P : VSet(cells[c]) = {vs[k - 1], vs[k]}, "order")
  \cup Clause((Len(vs) > 1 /\ loop) => vs[1] = vs[Len(vs)], "ends")

\* ---------------------------------------------------------------- plane contours (closed polygons, doubled points off the edges)
\* crossings of the ray to the right of q with the edges; coordinates are integers
Crosses(a, b, q) == /\ (a[2] > q[2]) # (b[2] > q[2])
                    /\ LET d == Det2(SubV(b, a), SubV(q, a)) IN IF b[2] > a[2] THEN d > 0 ELSE d < 0
InsidePoly(P, q) == Cardinality({k \in 1..(Len(P) - 1) : Crosses(P[k], P[k + 1], q)}) % 2 = 1
=============================================================================
