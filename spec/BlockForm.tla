------------------------------ MODULE BlockForm ------------------------------
(* Block forms: a list of spaces (numbers of spaces, which may repeat), an   *)
(* arity, and for each block whether a form was put there and the matrix it  *)
(* assembles to (linear forms have one column).  size[s] is the dimension of *)
(* the space s.  A term is [t, u, m]: test space, trial space (0 for linear  *)
(* forms), matrix.                                                           *)
EXTENDS Common

Has(f, s) == \E i \in DOMAIN f.sp : f.sp[i] = s
IndexOf(f, s) == CHOOSE i \in DOMAIN f.sp : f.sp[i] = s /\ \A j \in DOMAIN f.sp : f.sp[j] = s => i <= j
NCols(f) == IF f.ar = 1 THEN 1 ELSE Len(f.sp)
Width(size, f, j) == IF f.ar = 1 THEN 1 ELSE size[f.sp[j]]

NewForm(size, sp, ar) ==
  [sp |-> sp, ar |-> ar,
   b |-> [i \in DOMAIN sp |-> [j \in 1..(IF ar = 1 THEN 1 ELSE Len(sp)) |->
            [w |-> FALSE, m |-> ZeroM(size[sp[i]], IF ar = 1 THEN 1 ELSE size[sp[j]])]]]]

Block(m) == [w |-> TRUE, m |-> m]
Plus(x, y) == [w |-> x.w \/ y.w, m |-> AddM(x.m, y.m)]

\* adding a sum of terms: each finds its block
CanAdd(f, terms) == \A k \in DOMAIN terms : Has(f, terms[k].t) /\ (IF f.ar = 1 THEN terms[k].u = 0 ELSE terms[k].u # 0 /\ Has(f, terms[k].u))
Place(f, t) == <<IndexOf(f, t.t), IF f.ar = 1 THEN 1 ELSE IndexOf(f, t.u)>>
RECURSIVE AddTerms(_, _)
AddTerms(f, terms) ==
  IF terms = <<>> THEN f ELSE
  LET p == Place(f, Head(terms)) IN
  AddTerms([f EXCEPT !.b[p[1]][p[2]] = Plus(@, Block(Head(terms).m))], Tail(terms))

\* writing to one block
CanSet(f, i, j, t) == t.t = f.sp[i] /\ t.u = (IF f.ar = 1 THEN 0 ELSE f.sp[j])
SetBlock(f, i, j, t) == [f EXCEPT !.b[i][j] = Block(t.m)]
Clear(f, i, j) == [f EXCEPT !.b[i][j] = [w |-> FALSE, m |-> ZeroM(Len(@.m), Cols(@.m))]]
IncBlock(f, i, j, t) == [f EXCEPT !.b[i][j] = Plus(@, Block(t.m))]

CanSum(f, g) == f.sp = g.sp /\ f.ar = g.ar
SumForm(f, g) == [f EXCEPT !.b = [i \in DOMAIN f.b |-> [j \in DOMAIN f.b[i] |-> Plus(f.b[i][j], g.b[i][j])]]]

IsOrder(f, o) == Len(o) = Len(f.sp) /\ {o[i] : i \in DOMAIN o} = DOMAIN f.sp
PermuteForm(f, o) ==
  [f EXCEPT !.sp = [i \in DOMAIN o |-> f.sp[o[i]]],
            !.b = [i \in DOMAIN o |-> [j \in DOMAIN f.b[1] |-> f.b[o[i]][IF f.ar = 1 THEN 1 ELSE o[j]]]]]

IsUpper(f) == f.ar = 2 /\ \A i \in DOMAIN f.sp : \A j \in DOMAIN f.sp : j < i => ~f.b[i][j].w
IsLower(f) == f.ar = 2 /\ \A i \in DOMAIN f.sp : \A j \in DOMAIN f.sp : j > i => ~f.b[i][j].w
AdjBlock(x) == [x EXCEPT !.m = TrM(x.m)]
AdjForm(f) == [f EXCEPT !.b = [i \in DOMAIN f.b |-> [j \in DOMAIN f.b |-> AdjBlock(f.b[j][i])]]]
CanComplete(f) == IsUpper(f) \/ IsLower(f)
Complete(f) ==
  [f EXCEPT !.b = [i \in DOMAIN f.b |-> [j \in DOMAIN f.b |->
     IF IsUpper(f) THEN (IF j >= i THEN f.b[i][j] ELSE AdjBlock(f.b[j][i]))
     ELSE (IF j <= i THEN f.b[i][j] ELSE AdjBlock(f.b[j][i]))]]]

\* what it assembles to
Tensor(f) == [i \in DOMAIN f.b |-> [j \in DOMAIN f.b[i] |-> f.b[i][j].m]]
=============================================================================
