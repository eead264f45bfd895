----------------------------- MODULE BlockIndex -----------------------------
(* Operators between block spaces.  A block vector with layout sizes is the  *)
(* sequence of its entries; an operator which selects, reorders and groups   *)
(* blocks is a sequence of groups, each a sequence of (distinct) blocks.     *)
EXTENDS Common

\* positions (in the argument) of the entries of the result
Index(sizes, groups) ==
  LET order == Flat(groups) IN
  Flat([k \in DOMAIN order |-> [i \in 1..sizes[order[k]] |-> Offset(sizes, order[k]) + i]])
Apply(sizes, groups, x) == LET I == Index(sizes, groups) IN [p \in DOMAIN I |-> x[I[p]]]
\* positions are distinct, so that the adjoint puts each entry back, and nothing elsewhere
Adjoint(sizes, groups, y) ==
  LET I == Index(sizes, groups) IN
  [i \in 1..Total(sizes) |-> IF i \in Elems(I) THEN y[CHOOSE p \in DOMAIN I : I[p] = i] ELSE 0]

\* layout of the result: for each group the sizes of its blocks; operators which
\* merge a group hand it over as one vector
Layout(sizes, groups, merge) ==
  [g \in DOMAIN groups |->
     LET s == [k \in DOMAIN groups[g] |-> sizes[groups[g][k]]] IN
     IF merge THEN <<SumSeq(s)>> ELSE s]

\* contiguous groups given by their last blocks
Contiguous(offsets) ==
  [g \in DOMAIN offsets |->
     LET f == IF g = 1 THEN 0 ELSE offsets[g - 1] IN [k \in 1..(offsets[g] - f) |-> f + k]]
Singles(indices) == [k \in DOMAIN indices |-> <<indices[k]>>]

\* the matrix of block matrix B (seq of rows of blocks)
Glue(B, rs, cs) ==
  [i \in 1..Total(rs) |-> [j \in 1..Total(cs) |->
     LET a == BlockOf(rs, i)  b == BlockOf(cs, j) IN B[a][b][i - Offset(rs, a)][j - Offset(cs, b)]]]
Sub(A, I, J) == [i \in DOMAIN I |-> [j \in DOMAIN J |-> A[I[i]][J[j]]]]
Diag(n, f(_)) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN f(i) ELSE 0]]
=============================================================================
