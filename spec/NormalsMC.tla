------------------------------ MODULE NormalsMC -----------------------------
(* Mode "walk": directing the edges of a curve by walking along it from the *)
(* ends; every graph on N vertices with at most MaxE edges.                 *)
(* Mode "body": normals of the boundary of every set of cells of a mesh.    *)
EXTENDS Normals, Json

CONSTANTS Mode, N, MaxE

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})

AllE == {e \in SUBSET (1..N) : Cardinality(e) = 2}
Graphs == {E \in SUBSET AllE : E # {} /\ Cardinality(E) <= MaxE}

VARIABLES E, given, dir, stack, seen, body
vars == <<E, given, dir, stack, seen, body>>

\* -------------------------------------------------- bodies
Bg2 == [x |-> <<<<0, 0>>, <<2, 0>>, <<4, 0>>, <<0, 2>>, <<2, 2>>, <<4, 2>>, <<2, 4>>>>,
        cells |-> <<<<1, 2, 5>>, <<1, 4, 5>>, <<2, 3, 6>>, <<2, 5, 6>>, <<5, 6, 7>>, <<4, 5, 7>>>>]
Bg3 == [x |-> <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<2, 2, 2>>, <<-1, 1, 1>>>>,
        cells |-> <<<<1, 2, 3, 4>>, <<2, 3, 4, 5>>, <<1, 3, 4, 6>>>>]
Bgs == <<Bg2, Bg3>>
Bg == Bgs[body.g]
Dm == Len(Bg.cells[1]) - 1
Faces1 == {F \in FaceSet(Bg.cells, Dm - 1) : TRUE}
\* its facets seen from inside
InB(F) == Cofaces(Bg.cells, F) \cap body.cells
Boundary == {F \in Faces1 : Cardinality(InB(F)) = 1}
AsMesh(F) == [x |-> Bg.x, cells |-> <<ToSeq(F)>>]
OutN(F, cell) == LET M == AsMesh(F)
                     w == Conormal(M, 1) IN IF Outward(Bg, cell, F, w) THEN w ELSE Neg(w)

Init == IF Mode = "walk"
        THEN /\ E \in Graphs /\ given \in {0} \cup Leaves(E) /\ dir = {} /\ stack = <<>> /\ seen = {} /\ body = <<>>
        ELSE /\ body \in {[g |-> g, cells |-> C] : g \in 1..2, C \in SUBSET (1..6)}
             /\ body.cells # {} /\ body.cells \subseteq DOMAIN Bg.cells
             /\ E = {} /\ given = 0 /\ dir = {} /\ stack = <<>> /\ seen = {}

Undirected == {e \in E : \A d \in dir : {d[1], d[2]} # e}
Top == stack[Len(stack)]
Begin == /\ stack = <<>> /\ Undirected # {}
         /\ \E r \in VertsOf(Undirected) :
              LET P == Part(E, r) IN
              /\ IF given \in VertsOf(P) THEN r = given ELSE Leaves(P) # {} => r \in Leaves(P)
              /\ stack' = <<r>> /\ seen' = seen \cup {r}
         /\ UNCHANGED <<E, given, dir, body>>
Down == /\ stack # <<>>
        /\ \E v \in VertsOf(E) \ seen : /\ {Top, v} \in Undirected
                                        /\ dir' = dir \cup {<<Top, v>>} /\ stack' = Append(stack, v) /\ seen' = seen \cup {v}
        /\ UNCHANGED <<E, given, body>>
Back == /\ stack # <<>>
        /\ \E v \in seen : {Top, v} \in Undirected /\ dir' = dir \cup {<<Top, v>>}
        /\ UNCHANGED <<E, given, stack, seen, body>>
Up == /\ stack # <<>> /\ \A v \in VertsOf(E) : {Top, v} \notin Undirected \/ v = Top
      /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<E, given, dir, seen, body>>
Next == Mode = "walk" /\ (Begin \/ Down \/ Back \/ Up)
Spec == Init /\ [][Next]_vars

Done == Mode = "walk" /\ stack = <<>> /\ Undirected = {}
OnceEach == Mode = "walk" => \A e \in E : Cardinality({d \in dir : {d[1], d[2]} = e}) <= 1
Kept1 == Done => Kept(E, dir, given)
\* a walk reaches everything
Reached == Done => seen = VertsOf(E)
\* a given direction of everything except one edge of a loop or chain is not enough: reversing it breaks the run
Flip(d) == (dir \ {d}) \cup {<<d[2], d[1]>>}
Rigid == Done /\ (IsLoop(E) \/ IsTree(E)) /\ Cardinality(E) >= 3 /\ given # 0 => \A d \in dir : ~Kept(E, Flip(d), given)

\* the normals of a closed surface add up to zero
Closed == Mode = "body" =>
  LET B == ToSeq(Boundary)
      n(i) == OutN(B[i], CHOOSE c \in InB(B[i]) : TRUE)
      s(k) == LET g(i) == n(i)[k] IN SumTo(g, Len(B)) IN \A k \in 1..Dm : s(k) = 0
\* and are away from every point within when the body is one cell
Convex == Mode = "body" /\ Cardinality(body.cells) = 1 =>
  LET c == CHOOSE c \in body.cells : TRUE
      o(i) == LET g(j) == Bg.x[Bg.cells[c][j]][i] IN SumTo(g, Dm + 1)
      big == [x |-> [v \in DOMAIN Bg.x |-> [i \in 1..Dm |-> (Dm + 1) * Bg.x[v][i]]]] IN
  \A F \in Boundary : AwayFrom([AsMesh(F) EXCEPT !.x = big.x], 1, OutN(F, c), [i \in 1..Dm |-> o(i)])
\* seen from the two sides the normals are opposite
Opposite == Mode = "body" => \A F \in Faces1 : \A a, b \in Cofaces(Bg.cells, F) : a # b => OutN(F, a) = Neg(OutN(F, b))
Emit == IF Mode = "walk" /\ stack = <<>> /\ dir = {} THEN PrintT("@@GRAPH " \o ToJson([E |-> ToSeq({ToSeq(e) : e \in E}), root |-> given])) ELSE TRUE
=============================================================================
