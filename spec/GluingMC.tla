------------------------------ MODULE GluingMC ------------------------------
(* Gluing of pieces two at a time, in every order and grouping, with the     *)
(* numbering made as the implementation does it.                             *)
EXTENDS Gluing, Json

CONSTANTS Pieces    \* number of pieces, the first ones of the list
All == << [x |-> <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>>>, cells |-> <<<<1, 2, 3>>, <<2, 3, 4>>>>],
          [x |-> <<<<1, 1>>, <<2, 1>>, <<1, 0>>>>, cells |-> <<<<1, 2, 3>>>>],
          [x |-> <<<<2, 0>>, <<1, 0>>, <<2, 1>>>>, cells |-> <<<<1, 2, 3>>>>],
          [x |-> <<<<0, 1>>, <<0, 2>>, <<1, 1>>>>, cells |-> <<<<3, 2, 1>>>>] >>
In == SubSeq(All, 1, Pieces)

VARIABLES bag     \* glued meshes: [x, cells, leafs: input -> map or <<>>]
Start(i) == [x |-> In[i].x, cells |-> In[i].cells, leafs |-> [j \in 1..Pieces |-> IF j = i THEN [v \in DOMAIN In[i].x |-> v] ELSE <<>>]]
Init == bag = {Start(i) : i \in 1..Pieces}

RECURSIVE Listing(_)
Listing(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE b \in S : \A c \in S : b <= c IN <<a>> \o Listing(S \ {a})
Glue(a, b) ==
  LET shared == {v \in DOMAIN b.x : \E w \in DOMAIN a.x : a.x[w] = b.x[v]}
      un == Listing(DOMAIN b.x \ shared)
      lg == [v \in DOMAIN b.x |-> IF v \in shared THEN CHOOSE w \in DOMAIN a.x : a.x[w] = b.x[v]
                                  ELSE Len(a.x) + (CHOOSE k \in DOMAIN un : un[k] = v)] IN
  [x |-> a.x \o [k \in DOMAIN un |-> b.x[un[k]]],
   cells |-> a.cells \o [c \in DOMAIN b.cells |-> [i \in DOMAIN b.cells[c] |-> lg[b.cells[c][i]]]],
   leafs |-> [j \in 1..Pieces |-> IF b.leafs[j] = <<>> THEN a.leafs[j] ELSE [v \in DOMAIN b.leafs[j] |-> lg[b.leafs[j][v]]]]]
Next == \E a \in bag : \E b \in bag \ {a} : bag' = (bag \ {a, b}) \cup {Glue(a, b)}
Spec == Init /\ [][Next]_bag

Members(g) == Listing({j \in 1..Pieces : g.leafs[j] # <<>>})
Sound == \A g \in bag : LET M == Members(g) IN
   UnionFaults([x |-> g.x, cells |-> g.cells, maps |-> [k \in DOMAIN M |-> g.leafs[M[k]]]], [k \in DOMAIN M |-> In[M[k]]]) = {}
=============================================================================
