----------------------------- MODULE TransferMC -----------------------------
(* A coarse mesh is refined by splitting edges; functions with small values *)
(* are moved to the finer meshes.  Laws: every fine cell has one host, one  *)
(* of the cells at every point; continuous functions have one value;        *)
(* moving in steps is moving at once; lifting is the transpose of tracing.  *)
EXTENDS Transfer, Json

CONSTANTS Root, MaxSplits
ROOTS == [tri2 |-> [x |-> <<<<0, 0>>, <<16, 0>>, <<0, 16>>, <<16, 16>>>>, cells |-> <<<<1, 2, 3>>, <<2, 3, 4>>>>],
          skew |-> [x |-> <<<<0, 0>>, <<16, 8>>, <<8, 24>>, <<32, 32>>, <<40, 8>>>>, cells |-> <<<<1, 2, 3>>, <<2, 3, 4>>, <<2, 4, 5>>>>],
          line |-> [x |-> <<<<0>>, <<16>>, <<32>>>>, cells |-> <<<<1, 2>>, <<2, 3>>>>],
          tet2 |-> [x |-> <<<<0, 0, 0>>, <<16, 0, 0>>, <<0, 16, 0>>, <<0, 0, 16>>, <<16, 16, 16>>>>, cells |-> <<<<1, 2, 3, 4>>, <<2, 3, 4, 5>>>>]]
Coarse == ROOTS[Root]

VARIABLES fine, par, mid, n, u
vars == <<fine, par, mid, n, u>>
\* mid: the mesh before the last split
Half(a, b) == [i \in DOMAIN a |-> (a[i] + b[i]) \div 2]
Split(m, p, a, b) ==
  LET v == Len(m.x) + 1
      sub(c, old) == [j \in DOMAIN m.cells[c] |-> IF m.cells[c][j] = old THEN v ELSE m.cells[c][j]]
      f(c) == IF {a, b} \subseteq VSet(m.cells[c]) THEN <<sub(c, a), sub(c, b)>> ELSE <<m.cells[c]>>
      g(c) == IF {a, b} \subseteq VSet(m.cells[c]) THEN <<p[c], p[c]>> ELSE <<p[c]>>
  IN [m |-> [x |-> Append(m.x, Half(m.x[a], m.x[b])), cells |-> Flat([c \in DOMAIN m.cells |-> f(c)])],
      p |-> Flat([c \in DOMAIN m.cells |-> g(c)])]

Init == /\ fine = Coarse /\ mid = Coarse /\ par = [c \in DOMAIN Coarse.cells |-> c] /\ n = 0
        /\ u \in {f \in [DOMAIN Coarse.x -> {0, 1, 3}] : f[1] = 1}
Bisect(a, b) ==
  /\ n < MaxSplits /\ n' = n + 1 /\ UNCHANGED u
  /\ LET r == Split(fine, par, a, b) IN fine' = r.m /\ par' = r.p /\ mid' = fine
Next == \E a, b \in DOMAIN fine.x : a < b /\ (\E c \in DOMAIN fine.cells : {a, b} \subseteq VSet(fine.cells[c])) /\ Bisect(a, b)
Spec == Init /\ [][Next]_vars

\* the geometry and the parent's numbers agree
Host == \A c \in DOMAIN fine.cells : Hosts(Coarse, fine, c) = {par[c]}
OnPoint == \A c \in DOMAIN fine.cells : \A v \in VSet(fine.cells[c]) : par[c] \in At(Coarse, fine.x[v])
Filled == LET v(c) == Vol(fine.x, fine.cells[c])
              w(c) == Vol(Coarse.x, Coarse.cells[c]) IN SumTo(v, Len(fine.cells)) = SumTo(w, Len(Coarse.cells))
\* values of the continuous function (16 times)
U == [kind |-> "vertices", data |-> [v \in DOMAIN u |-> <<u[v]>>]]
ValIn(m, f, d, x) == LET b == Bary(m, d, x)
                         g(j) == b[j] * f.data[m.cells[d][j]][1]
                         vol(j) == b[j] IN (16 * SumTo(g, Len(b))) \div SumTo(vol, Len(b))
Vals(m, f, x) == {ValIn(m, f, d, x) : d \in At(m, x)}
One(m, f, x) == CHOOSE val \in Vals(m, f, x) : TRUE
Single == \A v \in DOMAIN fine.x : \A d \in At(Coarse, fine.x[v]) : Is(Coarse, U, d, fine.x[v], 1, 16, ValIn(Coarse, U, d, fine.x[v]))
Single2 == \A v \in DOMAIN fine.x : Cardinality(Vals(Coarse, U, fine.x[v])) = 1
\* coarse -> mid -> fine is coarse -> fine
Umid == [kind |-> "vertices", data |-> [v \in DOMAIN mid.x |-> <<One(Coarse, U, mid.x[v])>>]]
Tower == \A v \in DOMAIN fine.x : \A d \in At(mid, fine.x[v]) : Is(mid, Umid, d, fine.x[v], 1, 1, One(Coarse, U, fine.x[v]))
\* on one cell of the fine mesh the strict meaning implies the weak one
Ent(c) == [k \in DOMAIN fine.cells[c] |-> LET x == fine.x[fine.cells[c][k]] IN <<x, 1, One(Coarse, U, x)>>]
Weaker == \A c \in DOMAIN fine.cells : Moved(Coarse, fine, U, c, TRUE, 16, Ent(c)) /\ Moved(Coarse, fine, U, c, FALSE, 16, Ent(c))
\* lift of w from the facet made of the first vertices, against the trace of u there
FacetM == [x |-> SubSeq(Coarse.x, 1, Len(Coarse.cells[1]) - 1), cells |-> <<[j \in 1..Len(Coarse.cells[1]) - 1 |-> j]>>]
W == <<<<5, 1>>>>
Transpose ==
  LET lift(v) == IF Coarse.x[v] \in Nodes(FacetM, 1) THEN 1 + v ELSE 0
      l(v) == lift(v) * u[v]
      t(v) == (1 + v) * u[v] IN SumTo(l, Len(Coarse.x)) = SumTo(t, Len(FacetM.x))
Emit == (n > 0 /\ \A v \in DOMAIN u : u[v] = 1) => PrintT("@@FINE " \o ToJson([root |-> Root, x |-> fine.x, cells |-> fine.cells, par |-> par]))
=============================================================================
