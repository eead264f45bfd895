------------------------------ MODULE MarkersMC -----------------------------
(* Chains of extractions with a marking carried along, every time through    *)
(* a chosen set of tags.  Entities are named by root vertices.               *)
EXTENDS Complex, Json

CONSTANTS Root, Colors, Depth, Simulated

Cells ==
  CASE Root = "tri2" -> {{1, 2, 3}, {2, 3, 4}}
    [] Root = "tri4" -> {{1, 2, 5}, {2, 3, 5}, {3, 4, 5}, {1, 4, 5}}
    [] Root = "tet2" -> {{1, 2, 3, 4}, {2, 3, 4, 5}}
    [] Root = "seg" -> {{1, 2}, {2, 3}, {3, 4}}
VARIABLES cur, f, f0, dim, passed, hist
vars == <<cur, f, f0, dim, passed, hist>>
Dim(S) == (CHOOSE k \in 0..3 : \A c \in S : Cardinality(c) = k + 1)
EntsOf(S, d) == UNION {Faces(c, d) : c \in S}
TagSets == SUBSET Colors

Init == /\ cur = Cells
        /\ dim \in 0..(Dim(Cells) - 1)
        /\ IF Simulated THEN \E g \in {RandomElement([EntsOf(Cells, dim) -> Colors \cup {0}])} : f0 = g ELSE f0 \in [EntsOf(Cells, dim) -> Colors \cup {0}]
        /\ f = f0
        /\ passed = Colors
        /\ hist = <<>>
Go(d, S, T) ==
  /\ S # {} /\ cur' = S
  /\ f' = [E \in EntsOf(S, dim) |-> IF f[E] \in T THEN f[E] ELSE 0]
  /\ passed' = passed \cap T
  /\ hist' = Append(hist, [dim |-> d, cells |-> S, tags |-> T])
  /\ UNCHANGED <<dim, f0>>
Next == /\ Len(hist) < Depth
        /\ \E d \in (dim + 1)..Dim(cur) : 
             IF Simulated THEN \E S \in {RandomElement(SUBSET EntsOf(cur, d) \ {{}})} : \E T \in {RandomElement(TagSets \ {{}})} : Go(d, S, T)
             ELSE \E S \in SUBSET EntsOf(cur, d) : \E T \in TagSets : Go(d, S, T)
Spec == Init /\ [][Next]_vars

\* a chain of transfers is one transfer of the tags which passed everywhere
Compose == \A E \in EntsOf(cur, dim) : f[E] = IF f0[E] \in passed THEN f0[E] ELSE 0
Covers == DOMAIN f = EntsOf(cur, dim)
Emit == Len(hist) > 0 => PrintT("@@HIST " \o ToJson([root |-> Root, dim |-> dim, f |-> {<<E, f0[E]>> : E \in DOMAIN f0}, steps |-> hist]))
=============================================================================
