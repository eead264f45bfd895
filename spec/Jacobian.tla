------------------------------ MODULE Jacobian ------------------------------
(* Derivatives of forms (see FormAsm): the product rule on the factors.     *)
EXTENDS FormAsm

\* a finer unit so that products of four factors stay integers
JScale == 5760
JTerm(s, t, env) ==
  LET mesh == MeshOf(s, t.dom)
      k == Len(t.fs)
      navg == Cardinality({j \in 1..k : t.fs[j].r = "avg"})
      d == Len(mesh.cells[1]) - 1
      unit == JScale \div (Fact(d + k) * Pow(2, navg))
      vals(c) == [j \in 1..k |-> Factor(s, t.dom, c, t.fs[j], env[t.fs[j].w], t.fs[j].comp)]
      onCell(c) == IF ~Active(s, t, c) THEN 0 ELSE Size(mesh.x, mesh.cells[c]) * Monomials(vals(c), d + 1) IN
  t.c * unit * SumTo(onCell, Len(mesh.cells))
JForm(s, terms, env) == LET g(i) == JTerm(s, terms[i], env) IN SumTo(g, Len(terms))

\* the derivative with respect to x in the direction "u"
DerTerm(t, x) ==
  LET f(j) == IF t.fs[j].w = x THEN <<[t EXCEPT !.fs[j].w = "u"]>> ELSE <<>> IN
  Flat([j \in DOMAIN t.fs |-> f(j)])
Der(terms, x) == Flat([i \in DOMAIN terms |-> DerTerm(terms[i], x)])
Depends(terms, x) == \E i \in DOMAIN terms : \E j \in DOMAIN terms[i].fs : terms[i].fs[j].w = x

\* F at x - 2h, x - h, x, x + h, x + 2h determines the derivative in the direction h
\* of polynomials of degree <= 4
Central(F, D) == 12 * D = 8 * (F[4] - F[2]) - (F[5] - F[1])
Shifted(fld, dir, n) ==
  [fld EXCEPT !.data = [c \in DOMAIN @ |-> [k \in DOMAIN @[c] |-> [i \in DOMAIN @[c][k] |-> @[c][k][i] + n * dir.data[c][k][i]]]]]
=============================================================================
