------------------------------- MODULE Gluing -------------------------------
(* Meshes made of pieces: union of meshes, line meshes of branches, meshes   *)
(* of node and element tables.                                               *)
EXTENDS Complex

Pts(x, cell) == {x[v] : v \in VSet(cell)}
CellPts(m) == {Pts(m.x, m.cells[c]) : c \in DOMAIN m.cells}
NoTwins(m) == Cardinality(Elems(m.x)) = Len(m.x)
SumLens(ms) == LET g(i) == Len(ms[i].cells) IN SumTo(g, Len(ms))

\* r = [x, cells, maps]: one map of vertices for every input mesh
UnionFaults(r, inputs) ==
  LET total == Len(r.maps) = Len(inputs) /\ \A i \in DOMAIN inputs : Total1(r.maps[i], Len(inputs[i].x), Len(r.x)) IN
  Clause(Len(r.cells) = SumLens(inputs) /\ CellPts(r) = UNION {CellPts(inputs[i]) : i \in DOMAIN inputs}, "cells")
  \cup Clause(NoTwins(r), "merged")
  \cup Clause(Verts(r.cells) = DOMAIN r.x, "unused")
  \cup Clause(total, "maps")
  \cup (IF total THEN
        Clause(\A i \in DOMAIN inputs : SamePlaces(inputs[i], r.maps[i], r), "places")
        \cup Clause(\A i \in DOMAIN inputs : \A c \in DOMAIN inputs[i].cells :
               \E d \in DOMAIN r.cells : VSet(r.cells[d]) = {r.maps[i][v] : v \in VSet(inputs[i].cells[c])}, "image")
        ELSE {})

\* branches: sequences of points; both ends of every branch are merged with other ends at their place
Ends(branches) == UNION {{b[1], b[Len(b)]} : b \in Elems(branches)}
Inner(b) == SubSeq(b, 2, Len(b) - 1)
Count(s, p) == Cardinality({i \in DOMAIN s : s[i] = p})
InnerCount(branches, p) == LET g(i) == Count(Inner(branches[i]), p) IN SumTo(g, Len(branches))
EndCount(branches, p) == LET g(i) == LET b == branches[i] IN (IF b[1] = p THEN 1 ELSE 0) + (IF b[Len(b)] = p THEN 1 ELSE 0) IN SumTo(g, Len(branches))
SegCount(b, S) == Cardinality({i \in 1..(Len(b) - 1) : {b[i], b[i + 1]} = S})
Segs(branches, S) == LET g(i) == SegCount(branches[i], S) IN SumTo(g, Len(branches))
AllSegs(branches) == UNION {{{b[i], b[i + 1]} : i \in 1..(Len(b) - 1)} : b \in Elems(branches)}
Degree(cells, v) == Cardinality({c \in DOMAIN cells : v \in VSet(cells[c])})

LineFaults(r, branches) ==
  LET all == LET g(i) == Len(branches[i]) - 1 IN SumTo(g, Len(branches))
      pts == UNION {Elems(b) : b \in Elems(branches)} IN
  Clause(Len(r.cells) = all /\ CellPts(r) = AllSegs(branches)
         /\ \A S \in AllSegs(branches) : Cardinality({c \in DOMAIN r.cells : Pts(r.x, r.cells[c]) = S}) = Segs(branches, S), "segments")
  \cup Clause(Elems(r.x) = pts /\ \A p \in pts : Count(r.x, p) = InnerCount(branches, p) + (IF p \in Ends(branches) THEN 1 ELSE 0), "points")
  \* an end gathers all its branches, an interior point has its two neighbours
  \cup Clause(\A p \in Ends(branches) : InnerCount(branches, p) = 0 => \A v \in DOMAIN r.x : r.x[v] = p => Degree(r.cells, v) = EndCount(branches, p), "ends")
  \cup Clause(\A v \in DOMAIN r.x : r.x[v] \notin Ends(branches) => Degree(r.cells, v) = 2, "inner")

\* nodes: points; elements: dimension -> [topology, tags]; r = [x, cells, funs: dimension -> [ents, vals] (absent: <<>>)]
TableFaults(r, nodes, cells, ctags, low) ==
  LET want == {{nodes[v] : v \in VSet(cells[c])} : c \in DOMAIN cells} IN
  Clause(Len(r.cells) = Len(cells) /\ CellPts(r) = want /\ NoTwins(r) /\ Verts(r.cells) = DOMAIN r.x, "cells")
  \cup Clause(Len(r.cvals) = Len(cells) /\ \A c \in DOMAIN r.cells : c \in DOMAIN r.cvals =>
        \E d \in DOMAIN cells : {nodes[v] : v \in VSet(cells[d])} = Pts(r.x, r.cells[c]) /\ ctags[d] = r.cvals[c], "cell-tags")
  \cup Clause(\A k \in DOMAIN low : \* one table of lower dimensional elements each
        /\ IsEntityTable(r.low[k].ents, r, Len(low[k].top[1]) - 1)
        /\ Len(r.low[k].vals) = Len(r.low[k].ents)
        /\ \A e \in DOMAIN r.low[k].ents :
             LET S == {i \in DOMAIN low[k].top : {nodes[v] : v \in VSet(low[k].top[i])} = Pts(r.x, r.low[k].ents[e])} IN
             IF S = {} THEN r.low[k].vals[e] = 0 ELSE \E i \in S : r.low[k].vals[e] = low[k].tags[i], "tags")

\* a model of boxes (of any dimension, given by two corners) with tags, and the elements with tags made of it
RECURSIVE SumPairs(_)
SumPairs(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + SumPairs(S \ {x})
InBox(p, b) == \A i \in DOMAIN p : MinN(b.lo[i], b.hi[i]) <= p[i] /\ p[i] <= MaxN(b.lo[i], b.hi[i])
BoxSize(b) == LET g(i) == LET d == AbsN(b.hi[i] - b.lo[i]) IN IF d = 0 THEN 1 ELSE d
                  f(i) == IF i = 1 THEN g(1) ELSE IF i = 2 THEN g(1) * g(2) ELSE g(1) * g(2) * g(3) IN f(Len(b.lo))
Fact(d) == CASE d = 1 -> 1 [] d = 2 -> 2 [] d = 3 -> 6
\* d! times the size of an element in a coordinate line, plane or in space
ElSize(nodes, el) ==
  CASE Len(el) = 2 -> LET w == SubV(nodes[el[2]], nodes[el[1]]) IN AbsN(w[1]) + AbsN(w[2]) + AbsN(w[3])
    [] Len(el) = 3 -> LET u == SubV(nodes[el[2]], nodes[el[1]])
                          v == SubV(nodes[el[3]], nodes[el[1]]) IN
                      AbsN(u[1] * v[2] - u[2] * v[1]) + AbsN(u[2] * v[3] - u[3] * v[2]) + AbsN(u[1] * v[3] - u[3] * v[1])
    [] Len(el) = 4 -> Vol(nodes, el)
ModelFaults(nodes, els, parts) ==
  LET dims == {parts[i].dim : i \in DOMAIN parts}
      Tagged(e, t) == {k \in DOMAIN e.top : e.tags[k] = t}
      Boxes(d, t) == {i \in DOMAIN parts : parts[i].dim = d /\ parts[i].tag = t}
      Tags(d) == {parts[i].tag : i \in {j \in DOMAIN parts : parts[j].dim = d}}
      good == \A p \in Elems(nodes) : \A i \in DOMAIN p : p[i] # BAD IN
  Clause(good, "nodes")
  \cup Clause({els[k].dim : k \in DOMAIN els} = dims /\ Len(els) = Cardinality(dims), "dimensions")
  \cup (IF ~good THEN {} ELSE
        UNION {LET e == els[k] IN
               Clause(Len(e.tags) = Len(e.top) /\ Cardinality({VSet(c) : c \in Elems(e.top)}) = Len(e.top) /\ \A c \in Elems(e.top) : VSet(c) \subseteq DOMAIN nodes
                      /\ Elems(e.tags) = Tags(e.dim), "elements")
               \cup Clause(\A j \in DOMAIN e.top : \E i \in Boxes(e.dim, e.tags[j]) : \A v \in VSet(e.top[j]) : InBox(nodes[v], parts[i]), "in its part")
               \cup Clause(\A t \in Tags(e.dim) :
                      SumPairs({<<j, ElSize(nodes, e.top[j])>> : j \in Tagged(e, t)}) = Fact(e.dim) * SumPairs({<<i, BoxSize(parts[i])>> : i \in Boxes(e.dim, t)}), "fills its part")
               : k \in DOMAIN els})
=============================================================================
