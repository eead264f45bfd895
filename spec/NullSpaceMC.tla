---------------------------- MODULE NullSpaceMC -----------------------------
(* Histories: directions are added (refused when dependent on those there), *)
(* vectors are cleaned.                                                     *)
EXTENDS NullSpace, Json

CONSTANTS N, MaxAdd, MaxOps, Inner

M == CASE Inner = "id" -> IdM(N)
       [] Inner = "diag" -> [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN i ELSE 0]]
       [] Inner = "chain" -> [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN (IF i \in {1, N} THEN 2 ELSE 4) ELSE IF AbsN(i - j) = 1 THEN 1 ELSE 0]]
Vecs == [1..N -> -1..1]
Us == {v \in Vecs : \A i \in 1..N : v[i] # -1}

VARIABLES Z, hist
vars == <<Z, hist>>

Init == Z = <<>> /\ hist = <<>>
Add(v) == /\ Len(Z) < MaxAdd
          /\ LET ok == Independent(Append(Z, v)) IN
             /\ Z' = IF ok THEN Append(Z, v) ELSE Z
             /\ hist' = Append(hist, [op |-> "add", v |-> v, ok |-> ok])
Clean(u) == /\ hist' = Append(hist, [op |-> "clean", v |-> u, ok |-> TRUE]) /\ UNCHANGED Z
Next == Len(hist) < MaxOps /\ \E v \in Vecs : Add(v) \/ Clean(v)
Spec == Init /\ [][Next]_vars
\* one random history (for simulation)
NextR == Len(hist) < MaxOps /\ \E v \in {RandomElement(Vecs)} : \E k \in {RandomElement(1..2)} : IF k = 1 /\ Len(Z) < MaxAdd THEN Add(v) ELSE Clean(v)
SpecR == Init /\ [][NextR]_vars

D == Det(Z, M)
ZeroV == [i \in 1..N |-> 0]
Orthogonal == \A u \in Us : \A i \in DOMAIN Z : DotV(Z[i], MulV(M, Proj(Z, M, u))) = 0
Idempotent == \A u \in Us : Proj(Z, M, Proj(Z, M, u)) = ScaleV(D, Proj(Z, M, u))
Gone == \A i \in DOMAIN Z : Proj(Z, M, Z[i]) = ZeroV
Untouched == \A u \in Us : (\A i \in DOMAIN Z : DotV(Z[i], MulV(M, u)) = 0) => Proj(Z, M, u) = ScaleV(D, u)
\* the cleaned vector differs by a combination of the directions only
InSpan == \A u \in Us : LET p == SubV(ScaleV(D, u), Proj(Z, M, u)) IN Len(Z) < 3 /\ p # ZeroV => ~Independent(Append(Z, p))
SelfAdjoint == \A u, w \in Us : DotV(w, MulV(M, Proj(Z, M, u))) = DotV(u, MulV(M, Proj(Z, M, w)))
\* another basis of the same directions
Rebased == Len(Z) >= 2 => LET Y == <<AddV(Z[1], Z[2])>> \o Tail(Z) IN
  \A u \in Us : ScaleV(Det(Y, M), Proj(Z, M, u)) = ScaleV(D, Proj(Y, M, u))
\* dependent vectors are those which vanish when cleaned
Refusal == \A v \in Vecs : Len(Z) < 3 => (Independent(Append(Z, v)) <=> Proj(Z, M, v) # ZeroV)
Emit == IF Len(hist) = MaxOps THEN PrintT("@@HIST " \o ToJson([h |-> hist])) ELSE TRUE
=============================================================================
