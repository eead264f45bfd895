------------------------------- MODULE WrapMC -------------------------------
EXTENDS Wrap, Json

CONSTANTS R, C, Vals, MaxOps

Vec(n) == [1..n -> Vals]
Mats == [1..R -> Vec(C)]

VARIABLES s, hist
vars == <<s, hist>>

Ops == {[op |-> "mult", i |-> i, j |-> j] : i \in 1..2, j \in 1..2}
       \cup {[op |-> "tmult", i |-> i, j |-> j] : i \in 1..2, j \in 1..2}
       \cup {[op |-> "setx", i |-> i, j |-> 1] : i \in 1..2}
       \cup {[op |-> "sety", i |-> 1, j |-> j] : j \in 1..2}
       \cup {[op |-> "scalex", i |-> 1, j |-> 1], [op |-> "scaley", i |-> 1, j |-> 2], [op |-> "addx", i |-> 2, j |-> 1]}
       \cup (IF R = C THEN {[op |-> "feed", i |-> i, j |-> 1] : i \in 1..2} ELSE {})
Full(o, v) == [op |-> o.op, i |-> o.i, j |-> o.j, v |-> v]
New(o) == IF o.op = "setx" THEN Vec(C) ELSE IF o.op = "sety" THEN Vec(R) ELSE {<<>>}

Init == /\ \E A \in Mats : s = [A |-> A, X |-> <<[i \in 1..C |-> i], [i \in 1..C |-> 1]>>, Y |-> <<Zeros(R), [i \in 1..R |-> 1]>>]
        /\ hist = <<>>
Small(t) == \A r \in 1..2 : (\A i \in 1..C : AbsN(t.X[r][i]) < 60) /\ (\A i \in 1..R : AbsN(t.Y[r][i]) < 60)
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : \E v \in New(o) : s' = Exec(s, Full(o, v)) /\ hist' = Append(hist, o)
        /\ Small(s')
Spec == Init /\ [][Next]_vars
\* histories: the operations only, the numbers come from the replay
InitH == s = <<>> /\ hist = <<>>
NextH == Len(hist) < MaxOps /\ \E o \in {RandomElement(Ops)} : hist' = Append(hist, o) /\ UNCHANGED s
SpecH == InitH /\ [][NextH]_vars
Emit == IF Len(hist) = MaxOps THEN PrintT("@@HIST " \o ToJson([h |-> hist])) ELSE TRUE

Adjoint == \A i, j \in 1..2 : DotV(s.Y[j], MulV(s.A, s.X[i])) = DotV(s.X[i], MulV(TrM(s.A), s.Y[j]))
Linear == MulV(s.A, AddV(s.X[1], ScaleV(3, s.X[2]))) = AddV(MulV(s.A, s.X[1]), ScaleV(3, MulV(s.A, s.X[2])))
Repeatable == \A o \in Ops : o.op \in {"mult", "tmult"} => LET t == Exec(s, Full(o, <<>>)) IN Exec(t, Full(o, <<>>)) = t
\* one register per step
OneRegister == [][Len(hist') > Len(hist) =>
                  /\ s'.A = s.A
                  /\ Cardinality({r \in 1..2 : s'.X[r] # s.X[r]}) + Cardinality({r \in 1..2 : s'.Y[r] # s.Y[r]}) <= 1]_vars
\* components do not see each other
Comps == << <<1, 3>>, <<4, 2>> >>
ByComponent == R = 2 /\ C = 2 => LET B == Vectorized(s.A, Comps) IN
  \A x \in {<<1, 2, 3, 4>>, <<0, 1, 0, -2>>} : \A k \in 1..2 : LET y == MulV(B, x) IN
     [i \in 1..2 |-> y[Comps[k][i]]] = MulV(s.A, [i \in 1..2 |-> x[Comps[k][i]]])
=============================================================================
