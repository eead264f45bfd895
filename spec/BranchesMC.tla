----------------------------- MODULE BranchesMC -----------------------------
(* The colouring walk on every graph with few vertices: from any terminal    *)
(* along any cell, in any order, then around what is left.  However it is    *)
(* scheduled the colours are the maximal paths.                              *)
EXTENDS Branches, Json, SequencesExt

CONSTANTS NV, MaxE
Pairs == {p \in SUBSET (1..NV) : Cardinality(p) = 2}

VARIABLES g, left, found
vars == <<g, left, found>>

Graph(S) == [i \in 1..Cardinality(S) |-> SetToSeq(SetToSeq(S)[i])]
Init == /\ \E S \in SUBSET Pairs : S # {} /\ Cardinality(S) <= MaxE /\ g = Graph(S)
        /\ left = DOMAIN g
        /\ found = {}
Other(c, v) == CHOOSE w \in VSet(g[c]) : w # v
RECURSIVE Walk(_, _, _)
\* from vertex v over cell c until a terminal (or the start)
Walk(start, v, c) ==
  LET w == Other(c, v) IN
  IF w \in Terminals(g) \/ w = start THEN {c}
  ELSE {c} \cup Walk(start, w, CHOOSE d \in DOMAIN g : d # c /\ w \in VSet(g[d]))
Take(P) == left' = left \ P /\ found' = found \cup {P} /\ UNCHANGED g
Branch == \E v \in Terminals(g) : \E c \in left : v \in VSet(g[c]) /\ Take(Walk(v, v, c))
Round == /\ ~\E v \in Terminals(g) : \E c \in left : v \in VSet(g[c])
         /\ \E c \in left : Take(Walk(g[c][1], g[c][1], c))
Next == Branch \/ Round
Spec == Init /\ [][Next]_vars

Disjoint == \A P, Q \in found : P # Q => P \cap Q = {}
ArePaths == found \subseteq Paths(g)
Complete == left = {} => found = Paths(g)
Progress == left # {} => ENABLED Next
EndsOk == \A P \in found : Ends(g, P) \subseteq Terminals(g) /\ Cardinality(Ends(g, P)) \in {0, 2}
Inner == \A P \in found : \A v \in UNION {VSet(g[c]) : c \in P} \ Ends(g, P) : Cardinality({c \in P : v \in VSet(g[c])}) = 2
Emit == (left = DOMAIN g) => PrintT("@@GRAPH " \o ToJson([n |-> NV, cells |-> g]))
=============================================================================
