----------------------------- MODULE BlockFormMC -----------------------------
(* Histories of a few block forms.  Small: every history up to MaxOps (laws  *)
(* are checked).  Sim: random long histories, printed for the replay.        *)
EXTENDS BlockForm, Json

CONSTANTS Mode, MaxOps, NForms, NSpaces
VARIABLES size, forms, ops, done
vars == <<size, forms, ops, done>>

Names == 1..NForms
Spaces == 1..NSpaces
None == [sp |-> <<>>, ar |-> 0, b |-> <<>>]
TermOf(k, t, u) == [t |-> t, u |-> u, m |-> [i \in 1..size[t] |-> [j \in 1..(IF u = 0 THEN 1 ELSE size[u]) |-> ((k * 5 + 3 * i + 7 * j) % 9) - 4]]]

Op(kind, f, g, i, j, terms, order) == [op |-> kind, f |-> f, g |-> g, i |-> i, j |-> j, terms |-> terms, order |-> order]
K == Len(ops) + 1
Perms(n) == {o \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => o[i] # o[j]}
View == <<size, forms, Len(ops)>>
Made == {f \in Names : forms[f].ar # 0}
Do(o, fs) == ops' = Append(ops, o) /\ forms' = fs /\ UNCHANGED <<size, done>>

\* abstract terms <<test, trial>> of the replay get a matrix by their place in the history
Mk(ts) == [n \in DOMAIN ts |-> TermOf(K + n, ts[n][1], ts[n][2])]

New(f, sp, ar) == Do(Op("new", f, 0, ar, 0, <<>>, sp), [forms EXCEPT ![f] = NewForm(size, sp, ar)])
Add(f, ts) == Do(Op("add", f, 0, 0, 0, ts, <<>>), IF CanAdd(forms[f], Mk(ts)) THEN [forms EXCEPT ![f] = AddTerms(@, Mk(ts))] ELSE forms)
Set(f, i, j, ts) == Do(Op("set", f, 0, i, j, ts, <<>>), IF CanSet(forms[f], i, j, Mk(ts)[1]) THEN [forms EXCEPT ![f] = SetBlock(@, i, j, Mk(ts)[1])] ELSE forms)
Inc(f, i, j, ts) == Do(Op("inc", f, 0, i, j, ts, <<>>), IF CanSet(forms[f], i, j, Mk(ts)[1]) THEN [forms EXCEPT ![f] = IncBlock(@, i, j, Mk(ts)[1])] ELSE forms)
Clr(f, i, j) == Do(Op("clear", f, 0, i, j, <<>>, <<>>), [forms EXCEPT ![f] = Clear(@, i, j)])
Sum(h, f, g) == Do(Op("sum", h, g, f, 0, <<>>, <<>>), IF CanSum(forms[f], forms[g]) THEN [forms EXCEPT ![h] = SumForm(forms[f], forms[g])] ELSE forms)
Perm(h, f, o, bysp) == Do(Op("permute", h, f, bysp, 0, <<>>, o), IF IsOrder(forms[f], o) THEN [forms EXCEPT ![h] = PermuteForm(forms[f], o)] ELSE forms)
Compl(f) == Do(Op("complete", f, 0, 0, 0, <<>>, <<>>), IF CanComplete(forms[f]) THEN [forms EXCEPT ![f] = Complete(@)] ELSE forms)
Query(f) == Do(Op("query", f, 0, 0, 0, <<>>, <<>>), forms)
Adj(f, i, j) == Do(Op("adjoint", f, 0, i, j, <<>>, <<>>), forms)

\* ---------------------------------------------------------------- all short histories
SpLists == {<<1>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<2, 1, 2>>}
SmallTerms(f) == LET S == {forms[f].sp[i] : i \in DOMAIN forms[f].sp} \cup {1} IN
  IF forms[f].ar = 1 THEN {<<<<s, 0>>>> : s \in S} ELSE {<<<<s, r>>>> : s \in S, r \in S}
SmallNext ==
  \/ \E f \in Names, sp \in SpLists, ar \in {1, 2} : f \notin Made /\ (\A g \in Made : g < f) /\ New(f, sp, ar)
  \/ \E f \in Made : \/ \E ts \in SmallTerms(f) : Add(f, ts) \/ (forms[f].ar = 2 /\ \E i, j \in DOMAIN forms[f].sp : Inc(f, i, j, ts))
                     \/ Compl(f)
                     \/ forms[f].ar = 2 /\ \E i, j \in DOMAIN forms[f].sp : i # j /\ Clr(f, i, j)
                     \/ \E o \in Perms(Len(forms[f].sp)) : Perm(NForms, f, o, 0)
                     \/ \E g \in Made : Sum(NForms, f, g)

\* ---------------------------------------------------------------- random long histories
Rnd(S) == RandomElement(S)
RTerm(f) == IF Rnd(1..12) = 1 THEN <<Rnd(Spaces), Rnd(Spaces \cup {0})>>
            ELSE <<Rnd(Elems(f.sp)), IF f.ar = 1 THEN 0 ELSE Rnd(Elems(f.sp))>>
RTerms(f) == LET n == Rnd({1, 1, 2, 3}) IN [k \in 1..n |-> IF n = 1 THEN RTerm(f) ELSE <<Rnd(Elems(f.sp)), IF f.ar = 1 THEN 0 ELSE Rnd(Elems(f.sp))>>]
RSp == LET n == Rnd({1, 1, 2, 2, 2, 3, 3, 4}) IN [k \in 1..n |-> IF Rnd(1..8) = 1 THEN 1 ELSE Rnd(Spaces)]
ROrder(f) == LET n == Len(f.sp) IN
   IF Rnd(1..10) = 1 THEN [k \in 1..Rnd({n, n, n + 1, MaxN(n - 1, 1)}) |-> Rnd(1..n)] ELSE Rnd(Perms(n))
Fixed(x) == {x}
Kinds == {"new", "add", "upper", "set", "inc", "clear", "sum", "permute", "complete", "query", "adjoint", "add2", "up2", "sum2", "perm2"}
SimNext ==
  \E k \in Fixed(IF Made = {} THEN "new" ELSE Rnd(Kinds)) : \E f \in Fixed(IF Made = {} THEN Rnd(Names) ELSE Rnd(Made)) : \E h \in Fixed(Rnd(Names)) :
    CASE k = "new" -> \E sp \in Fixed(IF Made = {} \/ Rnd(1..3) = 1 THEN RSp ELSE forms[f].sp) : \E ar \in Fixed(Rnd({1, 2, 2, 2})) : New(h, sp, ar)
      [] k \in {"add", "add2"} -> \E ts \in Fixed(RTerms(forms[f])) : Add(f, ts)
      [] k \in {"upper", "up2"} -> IF forms[f].ar # 2 THEN Query(f) ELSE \E p \in Fixed(<<Rnd(1..Len(forms[f].sp)), Rnd(1..Len(forms[f].sp))>>) :
             Inc(f, MinN(p[1], p[2]), MaxN(p[1], p[2]), <<<<forms[f].sp[MinN(p[1], p[2])], forms[f].sp[MaxN(p[1], p[2])]>>>>)
      [] k \in {"set", "inc"} -> \E i \in Fixed(Rnd(1..Len(forms[f].sp))) : \E j \in Fixed(IF forms[f].ar = 1 THEN 1 ELSE Rnd(1..Len(forms[f].sp))) :
             \E t \in Fixed(IF Rnd(1..6) = 1 THEN <<Rnd(IF Rnd({1, 2}) = 1 THEN Spaces ELSE {forms[f].sp[i]}), Rnd(Spaces \cup {0})>> ELSE <<forms[f].sp[i], IF forms[f].ar = 1 THEN 0 ELSE forms[f].sp[j]>>) :
               IF k = "set" THEN Set(f, i, j, <<t>>) ELSE IF forms[f].ar # 2 THEN Query(f) ELSE Inc(f, i, j, <<t>>)
      [] k = "clear" -> IF forms[f].ar # 2 THEN Query(f) ELSE \E i \in Fixed(Rnd(1..Len(forms[f].sp))) : \E j \in Fixed(Rnd(1..Len(forms[f].sp))) : IF i > j THEN Clr(f, i, j) ELSE Query(f)
      [] k \in {"sum", "sum2"} -> \E g \in Fixed(Rnd(Made)) : IF CanSum(forms[f], forms[g]) \/ Rnd(1..6) = 1 THEN Sum(h, f, g) ELSE Query(f)
      [] k \in {"permute", "perm2"} -> \E o \in Fixed(ROrder(forms[f])) :
             \E b \in Fixed(IF Cardinality(Elems(forms[f].sp)) = Len(forms[f].sp) THEN Rnd({0, 1}) ELSE 0) : Perm(h, f, o, b)
      [] k = "complete" -> Compl(f)
      [] k = "query" -> Query(f)
      [] k = "adjoint" -> IF forms[f].ar # 2 THEN Query(f) ELSE \E i \in Fixed(Rnd(1..Len(forms[f].sp))) : \E j \in Fixed(Rnd(1..Len(forms[f].sp))) : Adj(f, i, j)
      [] OTHER -> FALSE

Init == /\ size = [s \in Spaces |-> 1 + (s % 3)]
        /\ forms = [f \in Names |-> None] /\ ops = <<>> /\ done = FALSE
Stop == Mode = "sim" /\ ~done /\ Len(ops) = MaxOps /\ done' = TRUE /\ UNCHANGED <<size, forms, ops>> /\ PrintT("@@HIST " \o ToJson(ops))
Next == \/ Len(ops) < MaxOps /\ IF Mode = "sim" THEN SimNext ELSE SmallNext
        \/ Stop
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- laws
Inv(o) == [i \in DOMAIN o |-> CHOOSE j \in DOMAIN o : o[j] = i]
PermuteBack == \A f \in Made : \A o \in Perms(Len(forms[f].sp)) : PermuteForm(PermuteForm(forms[f], o), Inv(o)) = forms[f]
SumCommutes == \A f, g \in Made : CanSum(forms[f], forms[g]) =>
    /\ SumForm(forms[f], forms[g]) = SumForm(forms[g], forms[f])
    /\ \A o \in Perms(Len(forms[f].sp)) : PermuteForm(SumForm(forms[f], forms[g]), o) = SumForm(PermuteForm(forms[f], o), PermuteForm(forms[g], o))
DiagSym(f) == \A i \in DOMAIN f.sp : f.b[i][i].m = TrM(f.b[i][i].m)
Symmetric(f) == \A i, j \in DOMAIN f.sp : f.b[i][j].m = TrM(f.b[j][i].m)
CompleteSymmetric == \A f \in Made : CanComplete(forms[f]) /\ DiagSym(forms[f]) => Symmetric(Complete(forms[f])) /\ AdjForm(Complete(forms[f])) = Complete(forms[f])
AdjInvolution == \A f \in Made : forms[f].ar = 2 => AdjForm(AdjForm(forms[f])) = forms[f]
\* reversing the order of the blocks turns upper into lower
Reversal == \A f \in Made : forms[f].ar = 2 => LET n == Len(forms[f].sp) IN (IsUpper(forms[f]) <=> IsLower(PermuteForm(forms[f], [i \in 1..n |-> n + 1 - i])))
=============================================================================
