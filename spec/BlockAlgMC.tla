----------------------------- MODULE BlockAlgMC -----------------------------
(* Exhaustive (or simulated) exploration of all programs of the stack       *)
(* machine over three rectangular leaves; complete programs are emitted.    *)
EXTENDS BlockAlg, Json, IOUtils

CONSTANTS MaxLen, MaxStack, WithOpq

\* 2x2, 2x3 and 3x2 leaves: every product shape and a non-symmetric square
Leaves == << << <<1, 2>>, <<3, 5>> >>,
             << <<0, 1, -2>>, <<4, 1, 0>> >>,
             << <<2, 0>>, <<1, -1>>, <<0, 3>> >> >>
Nums == {0, 2, -3}

VARIABLES stack, prog
vars == <<stack, prog>>

Init == stack = <<>> /\ prog = <<>>

\* keeps the integers of the exploration small
Small(st) == \A i \in 1..Len(st) : IsM(st[i]) =>
              \A r \in 1..Rows(st[i].a), c \in 1..Cols(st[i].a) : AbsN(st[i].a[r][c]) < 3000

Do(o) == /\ Enabled(stack, o, Leaves)
         /\ stack' = Exec(stack, o, Leaves)
         /\ Len(stack') <= MaxStack
         /\ Small(stack')
         /\ prog' = Append(prog, o)

PushLeaf == \E i \in DOMAIN Leaves : Do(Op("leaf", i))
PushNum == Len(prog) < MaxLen - 1 /\ \E x \in Nums : Do(Op("num", x))
Share == Len(prog) < MaxLen - 1 /\ \E i \in 1..Len(stack) : Do(Op("dup", i))
Mul == Do(Op("mul", 0))
Add == Do(Op("add", 0))
Sub == Do(Op("sub", 0))
Tr == Do(Op("tr", 0))
Neg == Do(Op("neg", 0))
Opq == WithOpq /\ Do(Op("opq", 0))

Next == /\ Len(prog) < MaxLen
        /\ (PushLeaf \/ PushNum \/ Share \/ Mul \/ Add \/ Sub \/ Tr \/ Neg \/ Opq)

Spec == Init /\ [][Next]_vars

Complete == Len(stack) = 1 /\ IsM(stack[1]) /\ Len(prog) > 1

\* numbers alone are not combined (Python does that before any operator exists)
TypeOK == \A i \in 1..Len(stack) :
             IsM(stack[i]) => IsMat(stack[i].a, Rows(stack[i].a), Cols(stack[i].a))

\* the incremental state agrees with the meaning of the recorded program
Replayable == prog # <<>> => RunProg(<<>>, prog, Leaves) = stack

\* algebraic laws of the denotation (sanity of the specification itself)
Laws == Complete =>
  LET A == stack[1].a IN
  /\ TrM(TrM(A)) = A
  /\ MulM(IdM(Rows(A)), A) = A
  /\ MulM(A, IdM(Cols(A))) = A
  /\ SubM(A, A) = ZeroM(Rows(A), Cols(A))
  /\ TrM(MulM(TrM(A), A)) = MulM(TrM(A), A)
  /\ AddM(A, A) = ScaleM(2, A)

Emit == Complete => PrintT("@@PROG " \o ToJson([prog |-> prog]))
=============================================================================
