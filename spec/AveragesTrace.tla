--------------------------- MODULE AveragesTrace ----------------------------
EXTENDS Averages, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Ok(e, c) == IF e.out # "ok" THEN {"refused"} ELSE c
Dir(m, c) == SubV(m.x[m.cells[c][2]], m.x[m.cells[c][1]])

\* averages over shapes: vals[cell] = sequence of <<point, component, 12 |n|^2 value>>
Shape(e) == Ok(e,
  LET L == e.line IN
  Clause(Len(e.vals) = Len(L.cells) /\ \A c \in DOMAIN L.cells : LET n == Dir(L, c) IN \A k \in DOMAIN e.vals[c] :
           LET p == e.vals[c][k] IN p[3] = Avg12(e.shape.kind, Size2(e.shape, p[1]), n, p[1], e.polys[p[2]]), IF e.far = <<>> THEN "average" ELSE "local")
  \cup Clause(\A g \in DOMAIN e.far : \A c \in DOMAIN L.cells : \A k \in DOMAIN e.vals[c] : Far(e.bg.x, e.far[g], e.vals[c][k][1], Dir(L, c), e.shape), "harness"))
Flux(e) == Ok(e,
  LET L == e.line IN
  Clause(\A c \in DOMAIN L.cells : LET n == Dir(L, c) IN \A k \in DOMAIN e.vals[c] :
           LET p == e.vals[c][k] IN p[3] = Flux2(Radius(e.shape, p[1]), n, e.polys), "flux"))
\* sizes of the shapes
Near(a, b, tol) == AbsN(a - b) <= tol
Measure(e) == Ok(e,
  LET good(p) == LET D == Size2(e.shape, p[1])
                     R == Radius(e.shape, p[1]) IN
        CASE e.shape.kind = "circle" -> Near(p[2], (2 * R * 314159) \div 100, 2)
          [] e.shape.kind = "disk" -> Near(p[2], (R * R * 314159) \div 100, 2)
          [] e.shape.kind = "square" -> p[2] = 2000 * D
          [] OTHER -> Near((p[2] \div 10) * (p[2] \div 10), 320000 * D, p[2] \div 2 + 10)
  IN Clause(\A k \in DOMAIN e.vals : good(e.vals[k]), "measure"))
\* a part of the shape is outside: the constant is reproduced by that part which is inside
\* (points and box in 1/1000, weights and value in millionth)
In(p, box) == \A i \in DOMAIN p : p[i] > 0 /\ p[i] < box[i]
Clear(p, box) == \A i \in DOMAIN p : AbsN(p[i]) > 5 /\ AbsN(p[i] - box[i]) > 5
Part(e) == Ok(e,
  LET one(r) == LET g(k) == IF In(r.pts[k], e.box) THEN r.w[k] ELSE 0 IN Near(SumTo(g, Len(r.pts)), r.val, Len(r.pts) + 10) IN
  Clause(\A i \in DOMAIN e.rows : one(e.rows[i]), "outside")
  \cup Clause(\A i \in DOMAIN e.rows : \A k \in DOMAIN e.rows[i].pts : Clear(e.rows[i].pts[k], e.box), "harness"))
\* moments of the rules, entries [i][j] for exponents i-1, j-1
\* the degree is that which the user asked for
ExactTo(kind, deg) ==
  CASE kind = "disk" -> IF deg > 19 THEN 19 ELSE IF deg % 2 = 0 THEN deg + 1 ELSE deg
    [] kind \in {"square", "rim"} -> 2 * deg - 1
    [] OTHER -> IF deg >= 24 THEN 6 ELSE IF deg >= 16 THEN 2 ELSE 0
Asked(kind, deg, i, j) == IF kind \in {"square", "rim"} THEN i <= ExactTo(kind, deg) /\ j <= ExactTo(kind, deg) ELSE i + j <= ExactTo(kind, deg)
Moments(e) == Ok(e,
  Clause(\A i, j \in DOMAIN e.m : Asked(e.kind, e.deg, i - 1, j - 1) => Near(e.m[i][j], Moment(e.kind, i - 1, j - 1), 12), "moments")
  \cup Clause(e.off <= 5, "plane") \cup Clause(e.kind = "disk" \/ e.neg = 0, "weights"))

\* traces of continuous functions on edges: values at vertices, [point, component, 2 value]
Edges(e) == Ok(e,
  LET L == e.line
      at(c, p, i) == IF \E v \in VSet(L.cells[c]) : L.x[v] = p THEN 2 * e.u[CHOOSE w \in DOMAIN e.bg.x : e.bg.x[w] = p][i]
                     ELSE LET g(k) == e.u[CHOOSE w \in DOMAIN e.bg.x : e.bg.x[w] = L.x[L.cells[c][k]]][i] IN SumTo(g, 2) IN
  Clause(\A c \in DOMAIN L.cells : \A k \in DOMAIN e.vals[c] : LET p == e.vals[c][k] IN p[3] = at(c, p[1], p[2]), "trace"))

\* patches: rows = sequence of [color, numerator, denominator] of the values
Patches(e) == Ok(e,
  LET good(r) == IF r.color = 0 \/ r.skip THEN r.num = 0
                 ELSE LET C == Patch(e.mark, r.color) IN r.den = PatchDen(e.m, C) /\ r.num = PatchNum(e.m, e.u, C) IN
  Clause(\A i \in DOMAIN e.rows : good(e.rows[i]), "patch"))
Nodal(e) == Ok(e,
  Clause(\A i \in DOMAIN e.rows : e.rows[i][2] = e.u[CHOOSE w \in DOMAIN e.m.x : e.m.x[w] = e.rows[i][1]], "node"))
\* means: val = d! (d + 1) times the value
Mean(e) == Ok(e, Clause(e.val = WSum(e.m, e.u, {c \in DOMAIN e.m.cells : e.on[c] = 1}, e.w), "mean"))
Surface(e) == Ok(e, Clause(e.den = SurfDen(e.em) /\ e.num = SurfNum(e.em, e.u), "surface"))

Step(e, s) ==
  CASE e.ev = "shape" -> [bad |-> Shape(e), s |-> s]
    [] e.ev = "flux" -> [bad |-> Flux(e), s |-> s]
    [] e.ev = "measure" -> [bad |-> Measure(e), s |-> s]
    [] e.ev = "part" -> [bad |-> Part(e), s |-> s]
    [] e.ev = "moments" -> [bad |-> Moments(e), s |-> s]
    [] e.ev = "edges" -> [bad |-> Edges(e), s |-> s]
    [] e.ev = "patch" -> [bad |-> Patches(e), s |-> s]
    [] e.ev = "node" -> [bad |-> Nodal(e), s |-> s]
    [] e.ev = "mean" -> [bad |-> Mean(e), s |-> s]
    [] e.ev = "surface" -> [bad |-> Surface(e), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
