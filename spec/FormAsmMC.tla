------------------------------ MODULE FormAsmMC ------------------------------
(* Generates forms: Mode "one": every form of a single term (laws of the     *)
(* meaning are checked on them); Mode "sim": random forms of several terms.  *)
EXTENDS FormAsm, Json

CONSTANTS Mode, MaxTerms

Fields == {[m |-> "bg", el |-> "CG1"], [m |-> "bg", el |-> "DG1"], [m |-> "bg", el |-> "DG0"], [m |-> "bg", el |-> "vDG1"], [m |-> "bg", el |-> "vCG1"],
           [m |-> "gam", el |-> "DG0"], [m |-> "gam", el |-> "CG1"], [m |-> "sub", el |-> "DG1"]}
Coefs == {[m |-> "bg", el |-> "CG1"], [m |-> "bg", el |-> "DG1"], [m |-> "gam", el |-> "DG0"]}
IsVec(f) == f.el \in {"vDG1", "vCG1"}
Doms == {"bg", "gam", "sub"}
Fits(f, dom) == f.m = dom \/ f.m = "bg"
How(f, dom) == IF f.m = dom \/ dom = "sub" THEN {""} ELSE IF f.el \in {"CG1", "vCG1"} THEN {"", "+", "jump"} ELSE {"+", "-", "jump", "avg"}
Comps(f) == IF IsVec(f) THEN {1, 2} ELSE {1}
Reduced(f, dom) == f.m # dom

\* the kinds a form has: <<test, trial>>, <<test>> or <<>> and coefficients c1, c2
VARIABLES form, done
vars == <<form, done>>

Env(fm, w) == CASE w = "v" -> fm.v [] w = "u" -> fm.u [] w = "c1" -> fm.c1 [] w = "c2" -> fm.c2
Who(fm) == IF fm.arity = 2 THEN {"v", "u"} ELSE IF fm.arity = 1 THEN {"v"} ELSE {}
DomsOf(fm) == {dom \in Doms : (\A w \in Who(fm) : Fits(Env(fm, w), dom)) /\ (fm.arity = 0 => Fits(fm.c1, dom))}

Base(ar, v, u, c1, c2) == [arity |-> ar, v |-> v, u |-> u, c1 |-> c1, c2 |-> c2, terms |-> <<>>]
F0 == [m |-> "gam", el |-> "DG0"]
K1 == [m |-> "bg", el |-> "CG1"]

Starts == {Base(2, v, u, K1, F0) : v \in Fields, u \in Fields} \cup {Base(1, v, K1, K1, F0) : v \in Fields} \cup {Base(0, K1, K1, c, F0) : c \in Coefs}
AnyStart(x) == Base(RandomElement({0, 1, 2, 2, 2}), RandomElement(Fields), RandomElement(Fields), RandomElement(Coefs), RandomElement(Coefs))

Fac(w, r, tags, comp) == [w |-> w, r |-> r, tags |-> tags, comp |-> comp]

\* factors of who in dom
Facs(fm, dom, w) ==
  LET f == Env(fm, w) IN
  {Fac(w, r, tags, comp) : r \in How(f, dom), tags \in IF f.m = "bg" /\ dom = "gam" THEN {<<>>, <<1>>} ELSE {<<>>}, comp \in Comps(f)}
CanPair(fm) == fm.arity = 2 /\ IsVec(fm.v) /\ IsVec(fm.u)

Single ==
  UNION {UNION {
    CASE fm.arity = 2 -> {[fm EXCEPT !.terms = <<[dom |-> dom, on |-> 0, c |-> 1, pair |-> FALSE, merge |-> FALSE, fs |-> <<a, b>>]>>]
                             : a \in {g \in Facs(fm, dom, "v") : g.tags = <<>>}, b \in Facs(fm, dom, "u")}
      [] fm.arity = 1 -> {[fm EXCEPT !.terms = <<[dom |-> dom, on |-> 0, c |-> 1, pair |-> FALSE, merge |-> FALSE, fs |-> <<a, b>>]>>]
                             : a \in Facs(fm, dom, "v"), b \in {g \in Facs(fm, dom, "c1") : g.r # "jump" /\ g.tags = <<>>}}
      [] fm.arity = 0 -> {[fm EXCEPT !.terms = <<[dom |-> dom, on |-> 0, c |-> 1, pair |-> FALSE, merge |-> FALSE, fs |-> <<a>>]>>]
                             : a \in Facs(fm, dom, "c1")}
    : dom \in {d \in DomsOf(fm) : fm.arity > 0 \/ Fits(fm.c1, d)}} : fm \in Starts}

Rnd(S) == RandomElement(S)
\* a random term; merged into the previous integrand with the same reductions of the arguments
RandomTerm(fm, prev) ==
  LET merge == prev # <<>> /\ Rnd({TRUE, FALSE})
      dom == IF merge THEN prev[1].dom ELSE Rnd(DomsOf(fm))
      pair == CanPair(fm) /\ Rnd({TRUE, FALSE})
      arg(w) == IF merge THEN LET p == CHOOSE f \in Elems(prev[1].fs) : f.w = w IN [p EXCEPT !.comp = Rnd(Comps(Env(fm, w)))]
                ELSE Rnd(Facs(fm, dom, w))
      args == IF fm.arity = 2 THEN <<arg("v"), arg("u")>> ELSE IF fm.arity = 1 THEN <<arg("v")>> ELSE <<>>
      fit == {w \in {"c1", "c2"} : Fits(Env(fm, w), dom)}
      n == IF fit = {} THEN 0 ELSE Rnd(IF fm.arity = 2 THEN {0, 0, 1} ELSE IF fm.arity = 1 THEN {0, 1, 2} ELSE {1, 2})
      co == [j \in 1..n |-> Rnd(Facs(fm, dom, Rnd(fit)))] IN
  [dom |-> dom, on |-> IF merge THEN prev[1].on ELSE IF dom = "sub" THEN 0 ELSE Rnd({0, 0, 1, 2}),
   c |-> Rnd({1, -1, 2, 3, -2}), pair |-> pair, merge |-> merge, fs |-> args \o co]

Usable(fm) == DomsOf(fm) # {}
Init == IF Mode = "one" THEN form \in Single /\ done = TRUE
        ELSE form = <<>> /\ done = FALSE
Start == form = <<>> /\ \E f \in {AnyStart(done)} : form' = f /\ UNCHANGED done
Restart == form # <<>> /\ form.terms = <<>> /\ ~Usable(form) /\ \E f \in {AnyStart(done)} : form' = f /\ UNCHANGED done
Add == /\ form # <<>> /\ ~done /\ Usable(form) /\ Len(form.terms) < MaxTerms
       /\ \E t \in {RandomTerm(form, IF form.terms = <<>> THEN <<>> ELSE <<form.terms[Len(form.terms)]>>)} :
            form' = [form EXCEPT !.terms = Append(@, t)]
       /\ UNCHANGED done
Stop == /\ form # <<>> /\ ~done /\ Len(form.terms) = MaxTerms
        /\ done' = TRUE /\ UNCHANGED form
        /\ PrintT("@@FORM " \o ToJson(form))
Next == Mode = "sim" /\ (Start \/ Restart \/ Add \/ Stop)
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------- laws of the meaning, Mode "one"
Bg == [x |-> <<<<0, 0>>, <<2, 0>>, <<0, 2>>, <<2, 2>>, <<4, 2>>>>,
       cells |-> <<<<1, 2, 3>>, <<2, 3, 4>>, <<2, 4, 5>>>>, mark |-> <<1, 2, 2>>]
Em == [x |-> <<<<2, 0>>, <<2, 2>>, <<0, 2>>, <<4, 2>>>>, cells |-> <<<<1, 2>>, <<2, 3>>, <<2, 4>>>>, mark |-> <<1, 2, 2>>]
Sub == [x |-> <<<<2, 2>>, <<4, 2>>, <<2, 0>>>>, cells |-> <<<<1, 2, 3>>>>, mark |-> <<2>>]
S0 == [bg |-> Bg, em |-> Em, sub |-> Sub, normal |-> <<<<1, 0>>, <<0, 1>>, <<0, -1>>>>]
\* some data in every cell, vertex and component
DataOf(f, z) == LET M == MeshOf(S0, f.m) IN
  [m |-> f.m, data |-> [c \in DOMAIN M.cells |-> [k \in DOMAIN M.cells[c] |-> [i \in 1..2 |-> ((c * 5 + k * k * 3 + i * 2 + z) % 7) - 3]]]]
E0 == [v |-> DataOf(form.v, 1), u |-> DataOf(form.u, 2), c1 |-> DataOf(form.c1, 3), c2 |-> DataOf(form.c2, 4)]
T0 == form.terms[1]
Val(t) == TermValue(S0, t, E0)
With(j, r) == [T0 EXCEPT !.fs[j].r = r]
Tagged(j, g) == [T0 EXCEPT !.fs[j].tags = g]

\* the order of factors is immaterial
Commutes == Mode = "one" => Val([T0 EXCEPT !.fs = [j \in DOMAIN @ |-> @[Len(@) + 1 - j]]]) = Val(T0)
\* a trace splits into those on the tagged parts, an integral into those over the marked parts
SplitTags == Mode = "one" /\ T0.dom = "gam" => \A j \in DOMAIN T0.fs : T0.fs[j].tags = <<>> /\ Env(form, T0.fs[j].w).m = "bg" => Val(T0) = Val(Tagged(j, <<1>>)) + Val(Tagged(j, <<2>>))
SplitOn == Mode = "one" /\ T0.dom # "sub" => Val(T0) = Val([T0 EXCEPT !.on = 1]) + Val([T0 EXCEPT !.on = 2])
\* jump = plus - minus, average is their mean (on the interior facet marked 1)
JumpLaw == Mode = "one" /\ T0.dom = "gam" => \A j \in DOMAIN T0.fs : T0.fs[j].r \in {"jump", "avg"} =>
   LET t(r) == [With(j, r) EXCEPT !.on = 1] IN
   /\ Val(t("jump")) = Val(t("+")) - Val(t("-"))
   /\ 2 * Val(t("avg")) = Val(t("+")) + Val(t("-"))
Linear == Mode = "one" =>
   LET w == T0.fs[1].w
       E2 == [E0 EXCEPT ![w].data = [c \in DOMAIN @ |-> [k \in DOMAIN @[c] |-> [i \in 1..2 |-> 3 * @[c][k][i]]]]] IN
   (\A j \in DOMAIN T0.fs : j > 1 => T0.fs[j].w # w) => TermValue(S0, T0, E2) = 3 * Val(T0)
Emit == Mode = "one" => PrintT("@@FORM " \o ToJson(form))
=============================================================================
