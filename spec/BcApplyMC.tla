------------------------------ MODULE BcApplyMC ------------------------------
(* What the operation is for: the solutions of the new system are exactly    *)
(* the vectors with the prescribed values which satisfy the free equations.  *)
EXTENDS BcApply, Json

CONSTANTS Sizes, Vals, Entr, Diags

V12 == {-1, 2}
S21 == <<2, 1>>
N == Total(Sizes)
\* some matrices: with free entries on a band, symmetric or not
VARIABLES A, b, conds, sym, d
vars == <<A, b, conds, sym, d>>

Cond(k) == {<<>>} \cup {<<<<<<i, v>>>>>> : i \in 1..Sizes[k], v \in Vals} \cup {<<<<<<i, v>>>>, <<<<i, w>>, <<j, v>>>>>> : i, j \in 1..Sizes[k], v, w \in {1}}
Init == /\ A = <<>> /\ b = <<>>
        /\ conds \in {c \in [1..Len(Sizes) -> UNION {Cond(k) : k \in 1..Len(Sizes)}] : \A k \in 1..Len(Sizes) : c[k] \in Cond(k)}
        /\ sym \in BOOLEAN /\ d \in Diags
\* the matrices have ones on the diagonal
Next == /\ A = <<>>
        /\ \E M \in [{p \in (1..N) \X (1..N) : p[1] # p[2]} -> Entr] :
             A' = [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 1 ELSE M[<<i, j>>]]]
        /\ b' \in {[i \in 1..N |-> i], [i \in 1..N |-> 2 - i]}
        /\ UNCHANGED <<conds, sym, d>>
Spec == Init /\ [][Next]_vars

Es == Entries(Sizes, conds)
C == Constrained(Es)
A1 == NewMatrix(A, C, sym, d)
b1 == NewRhs(A, b, Es, sym, d)
Box == [1..N -> -1..2]

Meaning == A # <<>> => (\A x \in Box :
   (MulV(A1, x) = b1) <=> /\ \A i \in C : x[i] = Value(Es, i)
                          /\ \A i \in (1..N) \ C : DotV(A[i], x) = b[i])
KeepsSymmetry == A # <<>> => (sym /\ A = TrM(A) => A1 = TrM(A1))
Untouched == A # <<>> => (~sym => \A i \in (1..N) \ C : A1[i] = A[i] /\ b1[i] = b[i])
\* applying twice is applying once
Idempotent == A # <<>> => (NewMatrix(A1, C, sym, d) = A1 /\ NewRhs(A1, b1, Es, sym, d) = b1)
Nothing == A # <<>> => (C = {} => A1 = A /\ b1 = b)
=============================================================================
