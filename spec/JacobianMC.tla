----------------------------- MODULE JacobianMC -----------------------------
(* Mode "laws": the product rule against exact differences of the meaning   *)
(* of terms with powers of two unknowns; Mode "sim": random systems of      *)
(* forms, one row for each unknown.                                         *)
EXTENDS Jacobian, Json

CONSTANTS Mode, MaxTerms

Kinds == {[m |-> "bg", el |-> "CG1"], [m |-> "bg", el |-> "DG1"], [m |-> "bg", el |-> "DG0"], [m |-> "bg", el |-> "vCG1"], [m |-> "bg", el |-> "vDG1"],
          [m |-> "gam", el |-> "DG0"], [m |-> "gam", el |-> "CG1"], [m |-> "sub", el |-> "DG1"], [m |-> "sub", el |-> "CG1"]}
IsVec(f) == f.el \in {"vDG1", "vCG1"}
Doms == {"bg", "gam", "sub"}
Fits(f, dom) == f.m = dom \/ f.m = "bg"
How(f, dom) == IF f.m = dom \/ dom = "sub" THEN {""} ELSE IF f.el \in {"CG1", "vCG1"} THEN {"", "+", "jump"} ELSE {"+", "-", "jump", "avg"}
Rnd(S) == RandomElement(S)
Fac(w, r, tags, comp) == [w |-> w, r |-> r, tags |-> tags, comp |-> comp]

\* sys: the kinds of the unknowns c1, c2 and one sequence of terms per row
VARIABLES sys, done
vars == <<sys, done>>
Kind(s, w) == CASE w = "c1" -> s.kinds[1] [] w = "c2" -> s.kinds[2]
\* a term of the row i; a term merged into an integrand keeps how the functions are reduced
RandomTerm(s, i, prev) ==
  LET v == s.kinds[i]
      merge == prev # <<>> /\ Rnd({TRUE, FALSE})
      dom == IF merge THEN prev[1].dom ELSE Rnd({d \in Doms : Fits(v, d)})
      ways == IF merge THEN prev[1].ways
              ELSE [w \in {"v", "c1", "c2"} |->
                      LET k == IF w = "v" THEN v ELSE Kind(s, w) IN
                      IF ~Fits(k, dom) THEN <<>>
                      ELSE <<Rnd(How(k, dom)), IF k.m = "bg" /\ dom = "gam" THEN Rnd({<<>>, <<1>>}) ELSE <<>> >>]
      comp(w) == IF IsVec(IF w = "v" THEN v ELSE Kind(s, w)) THEN Rnd({1, 2}) ELSE 1
      fac(w) == Fac(w, ways[w][1], ways[w][2], comp(w))
      fit == {w \in {"c1", "c2"} : ways[w] # <<>>}
      n == IF fit = {} THEN 0 ELSE Rnd({0, 1, 1, 2, 3}) IN
  [dom |-> dom, on |-> IF merge THEN prev[1].on ELSE IF dom = "sub" THEN 0 ELSE Rnd({0, 0, 1, 2}),
   c |-> Rnd({1, -1, 2}), pair |-> FALSE, merge |-> merge, ways |-> ways, fs |-> <<fac("v")>> \o [j \in 1..n |-> fac(Rnd(fit))]]

Cs == {<<"", "">>, <<"+", "">>, <<"-", "">>, <<"avg", "">>, <<"jump", "">>}
LawTerms == {[dom |-> dom, on |-> on, c |-> 1, pair |-> FALSE, merge |-> FALSE, fs |-> <<Fac("v", IF dom = "gam" THEN "avg" ELSE "", <<>>, 1)>> \o fs]
             : dom \in {"bg"}, on \in {0, 1},
               fs \in {<<Fac("c1", "", <<>>, a)>> : a \in {1}} \cup {<<Fac("c1", "", <<>>, 1), Fac("c1", "", <<>>, a)>> : a \in {1, 2}}
                      \cup {<<Fac("c1", "", <<>>, 1), Fac("c1", "", <<>>, 2), Fac("c1", "", <<>>, 1)>>, <<Fac("c1", "", <<>>, 1), Fac("c2", "", <<>>, 1), Fac("c1", "", <<>>, 1)>>,
                            <<Fac("c2", "", <<>>, 1)>>, <<>>}}
            \cup
            {[dom |-> "gam", on |-> on, c |-> 1, pair |-> FALSE, merge |-> FALSE, fs |-> <<Fac("v", rv, <<>>, 1)>> \o fs]
             : on \in {0, 1}, rv \in {"avg", "+"},
               fs \in UNION {{<<Fac("c1", r, g, 1)>>, <<Fac("c1", r, g, 1), Fac("c1", r, g, 2)>>, <<Fac("c1", r, g, 1), Fac("c2", r, <<>>, 1), Fac("c1", r, g, 1)>>}
                             : r \in {"+", "-", "avg", "jump"}, g \in {<<>>, <<1>>}}}
B == [m |-> "bg", el |-> "vDG1"]
Init == IF Mode = "laws" THEN done = TRUE /\ sys \in {[kinds |-> <<B, B>>, rows |-> <<<<t>>>>] : t \in LawTerms}
        ELSE sys = <<>> /\ done = FALSE
Start == /\ sys = <<>> /\ UNCHANGED done
         /\ \E a \in {Rnd(Kinds)} : \E b \in {Rnd(Kinds)} : sys' = [kinds |-> <<a, b>>, rows |-> <<<<>>, <<>>>>]
Add == /\ sys # <<>> /\ ~done
       /\ \E i \in {i \in 1..2 : Len(sys.rows[i]) < MaxTerms /\ (i = 1 \/ Len(sys.rows[1]) = MaxTerms)} :
            \E t \in {RandomTerm(sys, i, IF sys.rows[i] = <<>> THEN <<>> ELSE <<sys.rows[i][Len(sys.rows[i])]>>)} :
              sys' = [sys EXCEPT !.rows[i] = Append(@, t)]
       /\ UNCHANGED done
Stop == /\ sys # <<>> /\ ~done /\ \A i \in 1..2 : Len(sys.rows[i]) = MaxTerms
        /\ done' = TRUE /\ UNCHANGED sys
        /\ PrintT("@@SYS " \o ToJson(sys))
Next == Mode = "sim" /\ (Start \/ Add \/ Stop)
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------- laws
Bg == [x |-> <<<<0, 0>>, <<2, 0>>, <<0, 2>>, <<2, 2>>, <<4, 2>>>>,
       cells |-> <<<<1, 2, 3>>, <<2, 3, 4>>, <<2, 4, 5>>>>, mark |-> <<1, 2, 2>>]
Em == [x |-> <<<<2, 0>>, <<2, 2>>, <<0, 2>>, <<4, 2>>>>, cells |-> <<<<1, 2>>, <<2, 3>>, <<2, 4>>>>, mark |-> <<1, 2, 2>>]
Sub == [x |-> <<<<2, 2>>, <<4, 2>>, <<2, 0>>>>, cells |-> <<<<1, 2, 3>>>>, mark |-> <<2>>]
S0 == [bg |-> Bg, em |-> Em, sub |-> Sub, normal |-> <<<<1, 0>>, <<0, 1>>, <<0, -1>>>>]
DataOf(f, z) == LET M == MeshOf(S0, f.m) IN
  [m |-> f.m, data |-> [c \in DOMAIN M.cells |-> [k \in DOMAIN M.cells[c] |-> [i \in 1..2 |-> ((c * 5 + k * k * 3 + i * 2 + z) % 3) - 1]]]]
E0 == [v |-> DataOf(B, 1), u |-> DataOf(B, 2), c1 |-> DataOf(B, 3), c2 |-> DataOf(B, 4)]
L0 == sys.rows[1]
F(x, n) == JForm(S0, L0, [E0 EXCEPT ![x] = Shifted(@, E0["u"], n)])
Laws == Mode = "laws"
Exact == Laws => \A x \in {"c1", "c2"} : Central([n \in 1..5 |-> F(x, n - 3)], JForm(S0, Der(L0, x), E0))
Twice(g) == [g EXCEPT !.data = [c \in DOMAIN @ |-> [k \in DOMAIN @[c] |-> [i \in DOMAIN @[c][k] |-> 2 * @[c][k][i]]]]]
LinearDir == Laws => JForm(S0, Der(L0, "c1"), [E0 EXCEPT !["u"] = Twice(@)]) = 2 * JForm(S0, Der(L0, "c1"), E0)
ZeroIff == Laws => \A x \in {"c1", "c2"} : (Der(L0, x) = <<>>) <=> ~Depends(L0, x)
\* mixed derivatives agree (the direction of the first is the one of the second)
Mixed == Laws => JForm(S0, Der(Der(L0, "c1"), "c2"), E0) = JForm(S0, Der(Der(L0, "c2"), "c1"), E0)
=============================================================================
