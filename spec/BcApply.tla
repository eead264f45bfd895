------------------------------- MODULE BcApply -------------------------------
(* Boundary conditions for a block system.  A system is a square integer     *)
(* matrix and a right-hand side with a layout (sizes of the blocks).         *)
(* Conditions are, for each block, a sequence of sequences of <<dof, value>> *)
(* (dof local to the block, from 1); a later one of the same dof wins.       *)
EXTENDS Common

\* global constraint: set of <<global dof, value>>
Entries(sizes, conds) ==
  Flat([k \in DOMAIN conds |-> LET all == Flat(conds[k]) IN [j \in DOMAIN all |-> <<Offset(sizes, k) + all[j][1], all[j][2]>>]])
Constrained(es) == {es[j][1] : j \in DOMAIN es}
Value(es, i) == LET J == {j \in DOMAIN es : es[j][1] = i} IN es[CHOOSE j \in J : \A h \in J : h <= j][2]

NewMatrix(A, C, sym, d) ==
  [i \in DOMAIN A |-> [j \in DOMAIN A[i] |->
     IF i \in C THEN (IF i = j THEN d ELSE 0)
     ELSE IF sym /\ j \in C THEN 0 ELSE A[i][j]]]

NewRhs(A, b, es, sym, d) ==
  LET C == Constrained(es)
      x == [i \in DOMAIN b |-> IF i \in C THEN Value(es, i) ELSE 0] IN
  [i \in DOMAIN b |-> IF i \in C THEN d * x[i]
                      ELSE IF sym THEN b[i] - DotV(A[i], x) ELSE b[i]]
=============================================================================
