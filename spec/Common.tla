------------------------------- MODULE Common -------------------------------
(* Integer linear algebra and small helpers shared by all specifications.   *)
(* Matrices are sequences of rows; the sentinel BAD is what the recorder    *)
(* writes for a real number which is not the (scaled) integer it should be. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

BAD == 987654321

Elems(s) == {s[i] : i \in DOMAIN s}
MaxN(a, b) == IF a >= b THEN a ELSE b
MinN(a, b) == IF a <= b THEN a ELSE b
AbsN(a) == IF a >= 0 THEN a ELSE -a

RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f(n)

SumSeq(s) == LET g(i) == s[i] IN SumTo(g, Len(s))

Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
IsMat(A, r, c) == Len(A) = r /\ \A i \in 1..r : Len(A[i]) = c

Mat(r, c, f(_, _)) == [i \in 1..r |-> [j \in 1..c |-> f(i, j)]]
ZeroM(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]
IdM(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MulM(A, B) ==
  LET k == Len(B)
      c == Cols(B)
  IN [i \in 1..Len(A) |-> [j \in 1..c |-> LET g(t) == A[i][t] * B[t][j] IN SumTo(g, k)]]
AddM(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> A[i][j] + B[i][j]]]
SubM(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> A[i][j] - B[i][j]]]
ScaleM(x, A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> x * A[i][j]]]
TrM(A) == [j \in 1..Cols(A) |-> [i \in 1..Len(A) |-> A[i][j]]]
MulV(A, v) == [i \in 1..Len(A) |-> LET g(t) == A[i][t] * v[t] IN SumTo(g, Len(v))]
DotV(u, v) == LET g(t) == u[t] * v[t] IN SumTo(g, Len(u))
AddV(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
SubV(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
ScaleV(x, v) == [i \in 1..Len(v) |-> x * v[i]]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Offset(sizes, k) == LET g(t) == sizes[t] IN SumTo(g, k - 1)
Total(sizes) == SumSeq(sizes)

\* the block (1-based) and position in it of global index g
BlockOf(sizes, g) == CHOOSE k \in 1..Len(sizes) :
                        /\ Offset(sizes, k) < g
                        /\ g <= Offset(sizes, k) + sizes[k]

Clause(ok, name) == IF ok THEN {} ELSE {name}
=============================================================================
