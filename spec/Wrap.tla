-------------------------------- MODULE Wrap --------------------------------
(* A linear operator behind a foreign interface (PETSc, SciPy): a machine   *)
(* with vector registers X of the domain and Y of the range.  Every step    *)
(* applies the operator, its transpose, or changes a register; only the     *)
(* register written to may change.                                          *)
EXTENDS NullSpace

Zeros(n) == [i \in 1..n |-> 0]

\* state [A, X, Y]; op [op, i, j, v]: i a register of X, j one of Y
Write(s, r, i, v) == IF r = "X" THEN [s EXCEPT !.X[i] = v] ELSE [s EXCEPT !.Y[i] = v]
Exec(s, o) ==
  CASE o.op = "mult" -> Write(s, "Y", o.j, MulV(s.A, s.X[o.i]))
    [] o.op = "tmult" -> Write(s, "X", o.i, MulV(TrM(s.A), s.Y[o.j]))
    [] o.op = "setx" -> Write(s, "X", o.i, o.v)
    [] o.op = "sety" -> Write(s, "Y", o.j, o.v)
    [] o.op = "scalex" -> Write(s, "X", o.i, ScaleV(-2, s.X[o.i]))
    [] o.op = "scaley" -> Write(s, "Y", o.j, ScaleV(-2, s.Y[o.j]))
    \* square operators: the result is the next argument
    [] o.op = "feed" -> Write(s, "X", o.i, s.Y[o.j])
    \* a register added to the other one
    [] OTHER -> Write(s, "X", o.i, AddV(s.X[1], s.X[2]))

\* the same operator on each component; comps: the unknowns of the components
Vectorized(a, comps) ==
  LET n == Len(comps) * Len(a)
      C(d) == CHOOSE k \in DOMAIN comps : \E i \in DOMAIN comps[k] : comps[k][i] = d
      P(d) == LET k == C(d) IN CHOOSE i \in DOMAIN comps[k] : comps[k][i] = d
      where == [d \in 1..n |-> <<C(d), P(d)>>]
  IN [r \in 1..n |-> [c \in 1..n |-> IF where[r][1] = where[c][1] THEN a[where[r][2]][where[c][2]] ELSE 0]]

Inverses(A, B) == MulM(A, B) = IdM(Len(A))
\* x = xs/D solves A x = b
Solves(A, b, xs, D) == D # 0 /\ MulV(A, xs) = ScaleV(D, b)
=============================================================================
