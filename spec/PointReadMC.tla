---------------------------- MODULE PointReadMC -----------------------------
(* A session: readings of values and slopes of one function on a curve (a   *)
(* chain, a branching or a closed one) with arbitrarily directed cells,     *)
(* between which the function changes on a cell.                            *)
EXTENDS PointRead, Json

CONSTANTS Mode, MaxOps, Graphs

X == <<<<0, 0>>, <<2, 0>>, <<0, 4>>, <<2, 2>>>>
G == [chain |-> <<{1, 2}, {1, 3}>>, star |-> <<{1, 2}, {1, 3}, {1, 4}>>, loop |-> <<{1, 2}, {1, 3}, {2, 3}>>]
Directed(E) == {cs \in [DOMAIN E -> {<<a, b>> \in (1..4) \X (1..4) : a # b}] : \A i \in DOMAIN E : {cs[i][1], cs[i][2]} = E[i]}
Meshes == UNION {{[x |-> SubSeq(X, 1, 3 + (IF g = "star" THEN 1 ELSE 0)), cells |-> cs] : cs \in Directed(G[g])} : g \in Graphs}
Polys == {<<<<1, 0, 0>>>>, <<<<2, 1, 0>>, <<1, 0, 1>>>>, <<<<1, 2, 0>>, <<-1, 1, 1>>>>}
Dirs == {<<1, 0>>, <<0, -2>>, <<1, 1>>}

VARIABLES mesh, fun, ops
vars == <<mesh, fun, ops>>
At1 == {vc \in (DOMAIN mesh.x) \X (DOMAIN mesh.cells) : Allowed(mesh, vc[1], vc[2])}
R(S) == IF Mode = "sim" /\ S # {} THEN {RandomElement(S)} ELSE S

Init == mesh \in Meshes /\ ops = <<>> /\ fun \in [DOMAIN mesh.cells -> {<<p>> : p \in R(Polys)}]
Read(o) == ops' = Append(ops, o) /\ UNCHANGED <<mesh, fun>>
Next == /\ Len(ops) < MaxOps
        /\ \/ \E vc \in R(At1) : Read([op |-> "value", v |-> vc[1], c |-> vc[2], t |-> <<>>])
           \/ \E vc \in R(At1), t \in R(Dirs) : Read([op |-> "slope", v |-> vc[1], c |-> vc[2], t |-> t])
           \/ \E c \in R(DOMAIN mesh.cells), p \in R(Polys) :
                fun[c] # <<p>> /\ fun' = [fun EXCEPT ![c] = <<p>>] /\ UNCHANGED mesh /\ ops' = Append(ops, [op |-> "change", v |-> 0, c |-> c, t |-> <<>>])
Spec == Init /\ [][Next]_vars

U == [kind |-> "cells", data |-> fun]
\* the rest of the function does not matter
Local == \A vc \in At1 : \A d \in DOMAIN mesh.cells \ {vc[2]}, p \in Polys :
  LET W == [U EXCEPT !.data[d] = <<p>>] IN
  /\ Value(mesh, U, vc[1], vc[2], 1) = Value(mesh, W, vc[1], vc[2], 1)
  /\ \A t \in Dirs : Slope(mesh, U, vc[1], vc[2], t) = Slope(mesh, W, vc[1], vc[2], t)
\* continuous functions have one value at a vertex
Single == \A p \in Polys : \A a \in At1, b \in At1 : a[1] = b[1] =>
  LET W == [kind |-> "cells", data |-> [c \in DOMAIN mesh.cells |-> <<p>>]] IN Value(mesh, W, a[1], a[2], 1) = Value(mesh, W, b[1], b[2], 1)
\* the direction of the cell is irrelevant, the slope is linear in the direction
Flipped(c) == [mesh EXCEPT !.cells[c] = <<@[2], @[1]>>]
Undirected == \A vc \in At1, t \in Dirs : Slope(mesh, U, vc[1], vc[2], t) = Slope(Flipped(vc[2]), U, vc[1], vc[2], t)
Linear == \A vc \in At1, t \in Dirs : Slope(mesh, U, vc[1], vc[2], [i \in 1..2 |-> -3 * t[i]]) = -3 * Slope(mesh, U, vc[1], vc[2], t)
\* on affine functions the slope along the cell is the difference of the values
Difference == \A c \in DOMAIN mesh.cells : \A p \in {q \in Polys : \A k \in DOMAIN q : q[k][2] + q[k][3] <= 1} :
  LET W == [kind |-> "global", data |-> <<p>>]
      e == Along(mesh, c) IN
  Slope(mesh, W, mesh.cells[c][1], c, e) = DotV(e, e) * (Value(mesh, W, mesh.cells[c][2], c, 1) - Value(mesh, W, mesh.cells[c][1], c, 1))
Emit == IF Len(ops) = MaxOps THEN PrintT("@@OPS " \o ToJson([x |-> mesh.x, cells |-> mesh.cells, ops |-> ops])) ELSE TRUE
=============================================================================
