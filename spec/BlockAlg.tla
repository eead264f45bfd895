------------------------------ MODULE BlockAlg ------------------------------
(* Meaning of block operator expressions (cbc.block trees) and of their     *)
(* conversion to matrices.  An expression is built by a stack machine: each *)
(* action mirrors one user level operation ('*', '+', '-', '.T', scaling,   *)
(* re-use of an operand object), the state is the stack of denotations.     *)
EXTENDS Common

\* values: [k |-> "m", a |-> matrix] or [k |-> "n", v |-> number]
MV(A) == [k |-> "m", a |-> A, v |-> 0]
NV(x) == [k |-> "n", a |-> <<>>, v |-> x]
IsM(x) == x.k = "m"
IsN(x) == x.k = "n"

\* ops: [op |-> "leaf", i], "num" (v = number), "mul","add","sub","tr","dup" (share the i-th
\* value from the top), "opq" (hide the matrix in a matrix-free operator), "neg"
Op(name, i) == [op |-> name, i |-> i]

Top(st) == st[Len(st)]
Snd(st) == st[Len(st) - 1]
Pop(st, n) == SubSeq(st, 1, Len(st) - n)

CanMul(x, y) == \/ IsM(x) /\ IsM(y) /\ Cols(x.a) = Rows(y.a)
                \/ IsM(x) /\ IsN(y)
                \/ IsN(x) /\ IsM(y)
\* a number may only be added to an operator when it is zero
CanAdd(x, y) == \/ IsM(x) /\ IsM(y) /\ Rows(x.a) = Rows(y.a) /\ Cols(x.a) = Cols(y.a)
                \/ IsM(x) /\ IsN(y) /\ y.v = 0
                \/ IsN(x) /\ IsM(y) /\ x.v = 0

MulVal(x, y) == CASE IsM(x) /\ IsM(y) -> MV(MulM(x.a, y.a))
                  [] IsM(x) /\ IsN(y) -> MV(ScaleM(y.v, x.a))
                  [] OTHER            -> MV(ScaleM(x.v, y.a))
AddVal(x, y) == CASE IsM(x) /\ IsM(y) -> MV(AddM(x.a, y.a))
                  [] IsM(x)           -> x
                  [] OTHER            -> y
SubVal(x, y) == CASE IsM(x) /\ IsM(y) -> MV(SubM(x.a, y.a))
                  [] IsM(x)           -> x
                  [] OTHER            -> MV(ScaleM(-1, y.a))

Enabled(st, o, leaves) ==
  CASE o.op = "leaf" -> o.i \in DOMAIN leaves
    [] o.op = "num"  -> TRUE
    [] o.op \in {"tr", "opq", "neg"} -> Len(st) >= 1 /\ IsM(Top(st))
    [] o.op = "dup"  -> o.i \in 1..Len(st) /\ IsM(st[Len(st) + 1 - o.i])
    [] o.op = "mul"  -> Len(st) >= 2 /\ CanMul(Snd(st), Top(st))
    [] OTHER         -> Len(st) >= 2 /\ CanAdd(Snd(st), Top(st))

Exec(st, o, leaves) ==
  CASE o.op = "leaf" -> Append(st, MV(leaves[o.i]))
    [] o.op = "num"  -> Append(st, NV(o.i))
    [] o.op = "tr"   -> Append(Pop(st, 1), MV(TrM(Top(st).a)))
    [] o.op = "neg"  -> Append(Pop(st, 1), MV(ScaleM(-1, Top(st).a)))
    [] o.op = "opq"  -> st
    [] o.op = "dup"  -> Append(st, st[Len(st) + 1 - o.i])
    [] o.op = "mul"  -> Append(Pop(st, 2), MulVal(Snd(st), Top(st)))
    [] o.op = "add"  -> Append(Pop(st, 2), AddVal(Snd(st), Top(st)))
    [] OTHER         -> Append(Pop(st, 2), SubVal(Snd(st), Top(st)))

RECURSIVE RunProg(_, _, _)
RunProg(st, prog, leaves) ==
  IF prog = <<>> THEN st
  ELSE RunProg(Exec(st, Head(prog), leaves), Tail(prog), leaves)

Denote(prog, leaves) == Top(RunProg(<<>>, prog, leaves))

------------------------------------------------------------------------------
\* Block layouts: an entry is "zero", "diag" (number x on the diagonal) or a program
Entry(e, leaves, r, c) ==
  CASE e.k = "zero" -> ZeroM(r, c)
    [] e.k = "diag" -> ScaleM(e.v, IdM(r))
    [] OTHER        -> Denote(e.prog, leaves).a

Monolithic(rs, cs, ents, leaves) ==
  LET blk == [i \in 1..Len(rs) |-> [j \in 1..Len(cs) |-> Entry(ents[i][j], leaves, rs[i], cs[j])]]
  IN Flat([i \in 1..Len(rs) |->
           [r \in 1..rs[i] |-> Flat([j \in 1..Len(cs) |-> blk[i][j][r]])]])

\* a layout is well formed if every row and column has an entry with a matrix which
\* is able to say how large it is, and numbers sit on square diagonal blocks
WellFormed(rs, cs, ents) ==
  /\ \A i \in 1..Len(rs) : \E j \in 1..Len(cs) : ents[i][j].k = "prog"
  /\ \A j \in 1..Len(cs) : \E i \in 1..Len(rs) : ents[i][j].k = "prog"
  /\ \A i \in 1..Len(rs), j \in 1..Len(cs) :
        ents[i][j].k = "diag" => i = j /\ rs[i] = cs[j]
=============================================================================
