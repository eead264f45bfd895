----------------------------- MODULE AveragesMC -----------------------------
(* Mode "shape": every shape of small size in every plane with a normal of  *)
(* integer length: the formulas agree with exact cubature on the corners    *)
(* and the centre.  Mode "patch": every marking of a small mesh.            *)
EXTENDS Averages, Json

CONSTANTS Mode

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})

Rng == -3..3
Dirs == {n \in Rng \X Rng \X Rng : n # <<0, 0, 0>>}
Root(k) == IF \E r \in 1..6 : r * r = k THEN CHOOSE r \in 1..6 : r * r = k ELSE 0
CrossN(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>

VARIABLES kind, n, d, mesh, mark, colors
vars == <<kind, n, d, mesh, mark, colors>>

Line3 == [x |-> <<<<0>>, <<1>>, <<3>>, <<4>>, <<6>>>>, cells |-> <<<<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 5>>>>]
Tri4 == [x |-> <<<<0, 0>>, <<2, 0>>, <<0, 2>>, <<2, 2>>, <<4, 0>>, <<4, 2>>>>, cells |-> <<<<1, 2, 4>>, <<1, 3, 4>>, <<2, 4, 5>>, <<4, 5, 6>>>>]
Meshes == <<Line3, Tri4>>

Init == IF Mode = "shape"
        THEN /\ kind \in Kinds /\ n \in Dirs /\ Root(N2(n)) # 0
             /\ d \in Dirs /\ DotV(n, d) = 0
             /\ mesh = 0 /\ mark = <<>> /\ colors = <<>>
        ELSE /\ kind = "" /\ n = <<>> /\ d = <<>>
             /\ mesh \in 1..2 /\ mark \in [1..4 -> 0..2]
             /\ colors \in [1..3 -> {k \in 0..2 : k = 0 \/ \E c \in 1..4 : mark[c] = k}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ shapes
R == Root(N2(n))
\* corners (times |n|): d, n x d, -d, -n x d
Off == LET e == CrossN(n, d) IN <<ScaleV(R, d), e, ScaleV(-R, d), ScaleV(-1, e)>>
\* weights of corners and centre, in 12th
WC == CASE kind = "circle" -> <<12, 0>> [] kind = "disk" -> <<6, 6>> [] kind = "rim" -> <<8, 4>> [] kind = "square" -> <<4, 8>>
Monos == {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, 0, 1, 0>>, <<1, 0, 0, 1>>, <<1, 2, 0, 0>>, <<1, 0, 2, 0>>, <<1, 0, 0, 2>>, <<1, 1, 1, 0>>, <<1, 1, 0, 1>>, <<1, 0, 1, 1>>}
Cs == {<<0, 0, 0>>, <<1, -2, 3>>}
Cubature == Mode = "shape" => \A c \in Cs, m \in Monos :
  LET at(y) == Mono(m, AddV(ScaleV(R, c), y))
      g(k) == at(Off[k])
      s == CASE Degree(m) = 0 -> R * R [] Degree(m) = 1 -> R [] OTHER -> 1
  \* 48 R^2 times the average both ways
  IN 4 * Avg12(kind, N2(d), n, c, <<m>>) = s * (WC[1] * SumTo(g, 4) + 4 * WC[2] * at(<<0, 0, 0>>))
\* the orientation of the curve and the choice of the corner do not matter
Even == Mode = "shape" => \A m \in Monos :
  /\ Avg12(kind, N2(d), n, <<1, -2, 3>>, <<m>>) = Avg12(kind, N2(d), ScaleV(-1, n), <<1, -2, 3>>, <<m>>)
  /\ 4 * Avg12(kind, N2(d), n, <<1, 0, 1>>, <<m>>) = Avg12(kind, N2(d), ScaleV(2, n), <<1, 0, 1>>, <<m>>)
\* constants, and linear functions at the centre
Exact == Mode = "shape" => \A m \in Monos : Degree(m) <= 1 => Avg12(kind, N2(d), n, <<2, 1, -1>>, <<m>>) = 12 * N2(n) * Mono(m, <<2, 1, -1>>)
\* bigger shapes spread more: circle > rim > disk > square with the same corners
Order == Mode = "shape" /\ kind = "circle" =>
  \A i \in 1..3 : LET m == [k \in 1..4 |-> IF k = 1 THEN 1 ELSE IF k = i + 1 THEN 2 ELSE 0]
                      A(k) == Avg12(k, N2(d), n, <<0, 0, 0>>, <<m>>) IN A("circle") >= A("rim") /\ A("rim") >= A("disk") /\ A("disk") >= A("square") /\ A("square") >= 0
\* flux through the circle: the integral over the four corners, and the divergence in the plane
Fields == {<<<<<<1, 1, 0, 0>>>>, <<<<2, 0, 0, 1>>>>, <<<<3, 0, 0, 0>>>>>>, <<<<<<1, 0, 1, 0>>, <<5, 0, 0, 0>>>>, <<<<-1, 1, 0, 0>>, <<2, 0, 1, 0>>>>, <<<<1, 0, 0, 1>>>>>>}
RD == Root(N2(d))
FluxLaw == Mode = "shape" /\ kind = "circle" /\ RD # 0 => \A v \in Fields :
  \* R^2 RD times (4 times the average of v.y/RD), both ways; constants do not count
  LET lin == [i \in 1..3 |-> SelectSeq(v[i], LAMBDA m : Degree(m) = 1)]
      g(k) == LET h(i) == Poly(lin[i], Off[k]) * Off[k][i] IN SumTo(h, 3)
  IN 2 * RD * Flux2(RD, n, v) = SumTo(g, 4)
\* moments of degree two agree with the formulas (radius 1, half side 1)
SecondMoment == Mode = "shape" =>
  LET D == IF kind \in {"square", "rim"} THEN 2 ELSE 1 IN
  \A i \in {1} : AbsN(12 * Moment(kind, 2, 0) - K12(kind) * D * 1000000) <= 24 /\ Moment(kind, 1, 1) = 0 /\ Moment(kind, 0, 0) = 1000000
Far1 == Mode = "shape" /\ kind = "disk" => Far(<<<<5, 5, 5>>, <<9, 5, 5>>, <<5, 9, 5>>, <<5, 5, 9>>>>, <<1, 2, 3, 4>>, <<0, 0, 0>>, n, [kind |-> kind, a |-> 2, b |-> <<0, 0, 0>>])

\* ------------------------------------------------------------------ patches
Mh == Meshes[mesh]
K == Len(Mh.cells[1])
Us == {[c \in 1..4 |-> [k \in 1..K |-> 7]], [c \in 1..4 |-> [k \in 1..K |-> c * c - k]], [c \in 1..4 |-> [k \in 1..K |-> Mh.x[Mh.cells[c][k]][1]]]}
Active == {colors[i] : i \in 1..3} \ {0}
Consts == Mode = "patch" => \A a \in Active : PatchNum(Mh, [c \in 1..4 |-> [k \in 1..K |-> 7]], Patch(mark, a)) = 7 * PatchDen(Mh, Patch(mark, a))
\* between the smallest and the largest value of the patch, whatever the others are
Between == Mode = "patch" => \A a \in Active, u \in Us :
  LET C == Patch(mark, a)
      W == UNION {{u[c][k] : k \in 1..K} : c \in C}
      num == PatchNum(Mh, u, C)
      den == PatchDen(Mh, C) IN
  (\E w \in W : w * den <= num) /\ (\E w \in W : w * den >= num)
\* the whole is the average of the patches weighted by their volumes
Whole == Mode = "patch" => \A u \in Us : LET g(a) == PatchNum(Mh, u, Patch(mark, a - 1)) IN SumTo(g, 3) = PatchNum(Mh, u, 1..4)
Emit == IF Mode = "shape" THEN (IF kind = "circle" THEN PrintT("@@PLANE " \o ToJson([n |-> n, d |-> d])) ELSE TRUE)
        ELSE PrintT("@@PATCH " \o ToJson([mesh |-> mesh, mark |-> mark, colors |-> colors,
               apart |-> ToSeq({<<a, b>> : a, b \in Active} \cap {<<a, b>> \in {1, 2} \X {1, 2} : a < b /\ ~Neighbours(Mh, mark, a, b)})]))
=============================================================================
