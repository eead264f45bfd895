--------------------------- MODULE BlockIndexTrace ---------------------------
(* Recorded uses of the operators, the small matrices and the views.         *)
(* State: the coefficients of a block function with several views on it.     *)
EXTENDS BlockIndex, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Merges(e) == e.op \in {"rearange", "reduction"}
Groups(e) == CASE e.op = "select" -> Singles(e.spec[1])
               [] e.op \in {"reduction", "regroup"} -> Contiguous(e.spec[1])
               [] e.op = "rearange" -> e.spec

\* a value: flat entries, layout (sequence of groups of sizes), and whether it is
\* wrapped in a block vector; a single group is handed over bare
Shown(layout) == IF Len(layout) = 1 THEN [k \in DOMAIN layout[1] |-> <<layout[1][k]>>] ELSE layout
ValueOK(v, flat, layout) == /\ v.flat = flat
                            /\ v.layout = Shown(layout)
                            /\ v.wrapped = (Len(Shown(layout)) > 1)

OpBad(e) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  LET g == Groups(e)
      lay == Layout(e.sizes, g, Merges(e))
      Rx == Apply(e.sizes, g, e.x)
      flatlay == [k \in DOMAIN e.sizes |-> <<e.sizes[k]>>] IN
  Clause(ValueOK(e.Rx, Rx, lay), "apply")
  \cup Clause(/\ e.Rty.flat = Adjoint(e.sizes, g, e.y) /\ e.Rty.layout = flatlay, "adjoint")
  \cup Clause(e.RtRx.flat = Adjoint(e.sizes, g, Rx), "composition")
  \cup Clause(e.again.flat = Apply(e.sizes, g, e.x2) /\ e.again.layout = Shown(lay), "second")
  \cup Clause(e.keptRx.flat = Rx, "first result lost")
  \cup Clause(e.xafter = e.x /\ e.yafter = e.y, "input changed")
  \cup Clause(e.dims = <<>> \/ e.dims = <<Len(Index(e.sizes, g)), Total(e.sizes)>>, "dims")
  \cup Clause(e.mono = <<>> \/ e.mono = Rx, "monolithic")
  \cup (IF e.B = <<>> THEN {} ELSE
        LET rs == [k \in DOMAIN lay |-> SumSeq(lay[k])] IN
        Clause(e.congr = Adjoint(e.sizes, g, MulV(Glue(e.B, rs, rs), Rx)), "congruence"))

\* A acts on each component of a vector valued space; node[k] is where unknown k of the
\* scalar space sits, comp[j][k] the unknown of component j at the same place
VectorizedBad(e) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(/\ Len(e.got) = Len(e.x)
         /\ \A j \in DOMAIN e.comp :
              LET xj == [k \in DOMAIN e.comp[j] |-> e.x[e.comp[j][k]]]
                  yj == MulV(e.A, xj) IN
              \A k \in DOMAIN e.comp[j] : e.got[e.comp[j][k]] = yj[k], "vectorized")
  \cup Clause(e.xafter = e.x, "input changed")

Ones(i) == 1
Expected(e) ==
  CASE e.fn = "identity" -> Diag(Total(e.n), Ones)
    [] e.fn = "diagonal" -> LET f(i) == e.v[i] IN Diag(e.n[1], f)
    [] e.fn = "zero" -> ZeroM(e.n[1], e.n[2])
    [] e.fn = "rows" -> e.A
    [] e.fn = "transpose" -> TrM(e.A)
    [] e.fn \in {"nest", "petsc", "collapse"} -> e.A
    [] e.fn = "blockdiag" -> [i \in 1..Total(e.n) |-> [j \in 1..Total(e.n) |->
                                LET k == BlockOf(e.n, i) IN
                                IF BlockOf(e.n, j) = k THEN e.B[k][i - Offset(e.n, k)][j - Offset(e.n, k)] ELSE 0]]
MatBad(e) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(e.got = Expected(e), "entries")

\* A cut into blocks of rows I[k] and columns J[k], each possibly cut again
BlocksBad(e) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(/\ Len(e.got) = Len(e.I)
         /\ \A a \in DOMAIN e.I : /\ Len(e.got[a]) = Len(e.J)
                                  /\ \A b \in DOMAIN e.J : e.got[a][b] = Sub(e.A, e.I[a], e.J[b]), "entries")
VBlocksBad(e) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(e.got = [a \in DOMAIN e.I |-> [k \in DOMAIN e.I[a] |-> e.x[e.I[a][k]]]], "entries")

\* grouping the blocks of a block matrix: for each group of rows and columns its
\* blocks, one being handed over bare
ReshapeBad(e) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  LET g == Contiguous(e.offsets) IN
  Clause(/\ Len(e.got) = Len(g)
         /\ \A a \in DOMAIN g : /\ Len(e.got[a]) = Len(g)
              /\ \A b \in DOMAIN g :
                   /\ e.got[a][b].bare = (Len(g[a]) = 1 /\ Len(g[b]) = 1)
                   /\ e.got[a][b].blocks = [i \in DOMAIN g[a] |-> [j \in DOMAIN g[b] |-> e.B[g[a][i]][g[b][j]]]], "blocks")

\* sizes of operators without forming them
SizesBad(e) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  LET r == e.rc[1]  c == e.rc[2] IN
  Clause(e.got = <<e.rs, e.cs>> /\ e.vec = e.rs, "blocks")
  \cup Clause(e.dims = <<<<r, c>>, <<c, r>>, <<r, r>>, <<r, c>>, <<r, c>>, <<r, c>>, <<c, r>>>>, "dims")

\* nested lists in row major order
RECURSIVE Rank(_, _)
Rank(idx, shape) == IF idx = <<>> THEN 0
                    ELSE Rank(SubSeq(idx, 1, Len(idx) - 1), SubSeq(shape, 1, Len(shape) - 1)) * shape[Len(shape)] + idx[Len(idx)] - 1
Product(s) == LET f[k \in 0..Len(s)] == IF k = 0 THEN 1 ELSE s[k] * f[k - 1] IN f[Len(s)]
ListBad(e) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(e.flat = [k \in 1..Product(e.from) |-> k], "flatten")
  \cup Clause(e.shapes = <<e.from, e.to>>, "shape")
  \cup Clause(/\ Len(e.got) = Product(e.to)
              /\ \A k \in DOMAIN e.got : Rank(e.got[k][1], e.to) + 1 = e.got[k][2][1], "reshape")

\* views of a block function: every view shows the coefficients
Shows(e, s) == \A v \in DOMAIN e.views : e.views[v] = s.x
Write(e, s) ==
  LET k == e.k  off == Offset(s.sizes, k) IN
  [i \in DOMAIN s.x |->
     CASE e.how = "all" -> e.v[i]
       [] e.how = "scale" -> e.v[1] * s.x[i]
       [] e.how = "axpy" -> s.x[i] + e.v[i]
       [] OTHER -> IF off < i /\ i <= off + s.sizes[k] THEN e.v[i - off] ELSE s.x[i]]

Step(e, s) ==
  CASE e.ev = "op" -> [bad |-> OpBad(e), s |-> s]
    [] e.ev = "vectorized" -> [bad |-> VectorizedBad(e), s |-> s]
    [] e.ev = "mat" -> [bad |-> MatBad(e), s |-> s]
    [] e.ev = "blocks" -> [bad |-> BlocksBad(e), s |-> s]
    [] e.ev = "vblocks" -> [bad |-> VBlocksBad(e), s |-> s]
    [] e.ev = "reshape" -> [bad |-> ReshapeBad(e), s |-> s]
    [] e.ev = "sizes" -> [bad |-> SizesBad(e), s |-> s]
    [] e.ev = "list" -> [bad |-> ListBad(e), s |-> s]
    [] e.ev = "function" -> [bad |-> IF e.out # "ok" THEN {"refused"} ELSE Clause(Shows(e, [x |-> e.x]), "view"), s |-> [x |-> e.x, sizes |-> e.sizes]]
    [] e.ev = "write" -> LET t == [s EXCEPT !.x = Write(e, s)] IN
                         [bad |-> IF e.out # "ok" THEN {"refused"} ELSE Clause(Shows(e, t), "view"), s |-> t]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
