----------------------------- MODULE TraceOpMC ------------------------------
(* Configurations of the trace operator and the laws of its meaning on a    *)
(* strip of triangles with a branching, partly tagged curve of facets.      *)
EXTENDS TraceOp, Json

CONSTANTS Elements, Restrs, TagSets, Dims

Bg == [x |-> <<<<0, 0>>, <<2, 0>>, <<0, 2>>, <<2, 2>>, <<4, 2>>>>,
       cells |-> <<<<1, 2, 3>>, <<2, 3, 4>>, <<2, 4, 5>>>>]
Em == [x |-> <<<<2, 0>>, <<0, 2>>, <<2, 2>>, <<0, 0>>>>, cells |-> <<<<1, 2>>, <<1, 3>>, <<1, 4>>>>, mark |-> <<1, 2, 2>>]
N0 == <<<<1, 1>>, <<1, 0>>, <<0, -1>>>>

VARIABLES cfg, flips, u
vars == <<cfg, flips, u>>
\* values -1..1 per cell as constants (one component); flips of the normals
Cfgs == [elem : Elements, restr : Restrs, tags : TagSets, dim : Dims]
Up == [c \in 1..3 |-> 1]
Zero == [c \in 1..3 |-> 0]
Init == \/ cfg \in Cfgs /\ flips = Up /\ u = Zero
        \/ /\ cfg = (CHOOSE c \in Cfgs : TRUE)
           /\ flips \in [1..3 -> {1, -1}]
           /\ u \in [1..3 -> {0, 1, 3}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

U == [kind |-> "cells", data |-> [c \in 1..3 |-> <<<<<<u[c], 0, 0>>>>>>]]
Ent == <<<<<<2, 0>>, 1>>>>
N(c) == ScaleV(flips[c], N0[c])
V(c, r) == (CHOOSE f \in Expected(Bg, Em, U, c, N(c), r, Ent) : TRUE)[1]
Vf(c, r) == (CHOOSE f \in Expected(Bg, Em, U, c, ScaleV(-1, N(c)), r, Ent) : TRUE)[1]
Interior(c) == Cardinality(Cofaces(Bg.cells, Image(Bg, Em, c))) = 2

AvgJump == \A c \in 1..3 : /\ V(c, "avg") = V(c, "+") + V(c, "-")
                           /\ Interior(c) => V(c, "jump") = V(c, "+") - V(c, "-")
Flip == \A c \in 1..3 : /\ Vf(c, "+") = V(c, "-")
                        /\ Vf(c, "avg") = V(c, "avg")
                        /\ Interior(c) => Vf(c, "jump") = -V(c, "jump")
OneCell == \A c \in 1..3 : ~Interior(c) => V(c, "+") = V(c, "-")
Either == \A c \in 1..3 : Expected(Bg, Em, U, c, N(c), "", Ent) =
                           {[k \in {1} |-> V(c, "+")], [k \in {1} |-> V(c, "-")]}
Emit == (flips = Up /\ u = Zero) => PrintT("@@CFG " \o ToJson(cfg))
=============================================================================
