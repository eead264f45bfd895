------------------------------- MODULE FormAsm -------------------------------
(* Meaning of a form: the sum of its integrals, in each of which every       *)
(* reduced function stands for its reduction.                                *)
(*                                                                           *)
(* All fields are piecewise linear: data[c][k][i] is the component i at the  *)
(* k-th vertex of the c-th cell of the mesh the field lives on ("bg", "gam"  *)
(* or "sub").  A term is [dom, on, c, fs, pair]: c times the integral over   *)
(* (the part of dom marked by on, 0: all of it) of the product of factors    *)
(* [w, r, tags, comp]: w who, r how it is reduced, tags the part of gam the  *)
(* trace is limited to ({}: all), comp the component.  pair: the first two   *)
(* factors are vectors and enter by their inner product.                     *)
EXTENDS TraceOp

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Scale == 960

MeshOf(s, m) == CASE m = "bg" -> s.bg [] m = "gam" -> s.em [] m = "sub" -> s.sub

\* length, twice area, .. of a cell; the edges of gam are parallel to the axes
Size(x, cell) == IF Len(cell) = 2 THEN LET d == Edge(x, cell[1], cell[2]) IN AbsN(d[1]) + AbsN(d[2]) ELSE Vol(x, cell)

LocalAt(mesh, cell, p) == CHOOSE k \in DOMAIN mesh.cells[cell] : mesh.x[mesh.cells[cell][k]] = p
ParentCell(bg, sub, c) ==
  LET P == {sub.x[v] : v \in VSet(sub.cells[c])} IN
  CHOOSE b \in DOMAIN bg.cells : {bg.x[v] : v \in VSet(bg.cells[b])} = P

\* values at the vertices of a cell of the domain (twice the values for the average)
Factor(s, dom, c, f, fld, comp) ==
  LET mesh == MeshOf(s, dom)
      cell == mesh.cells[c]
      From(b, k) == fld.data[b][LocalAt(s.bg, b, mesh.x[cell[k]])][comp]
      all(g(_)) == [k \in DOMAIN cell |-> g(k)] IN
  IF fld.m = dom THEN LET g(k) == fld.data[c][k][comp] IN all(g)
  ELSE IF dom = "sub" THEN LET b == ParentCell(s.bg, s.sub, c)
                               g(k) == From(b, k) IN all(g)
  ELSE IF Elems(f.tags) # {} /\ s.em.mark[c] \notin Elems(f.tags) THEN LET g(k) == 0 IN all(g)
  ELSE LET F == Image(s.bg, s.em, c)
           p == SideCell(s.bg, F, s.normal[c], "+")
           m == SideCell(s.bg, F, s.normal[c], "-")
           bdry == Cardinality(Cofaces(s.bg.cells, F)) = 1
           g(k) == CASE f.r \in {"", "+"} -> From(p, k)
                     [] f.r = "-" -> From(m, k)
                     [] f.r = "avg" -> From(p, k) + From(m, k)
                     [] f.r = "jump" -> IF bdry THEN From(p, k) ELSE From(p, k) - From(m, k) IN all(g)

\* (d+k)! / |K| times the integral of the product of k linear functions
Monomials(vs, n) ==
  LET k == Len(vs)
      g(t) == LET pr(j) == vs[j][t[j]]
                  mu(i) == Fact(Cardinality({j \in 1..k : t[j] = i}))
                  RECURSIVE P(_), Q(_)
                  P(j) == IF j = 0 THEN 1 ELSE P(j - 1) * pr(j)
                  Q(i) == IF i = 0 THEN 1 ELSE Q(i - 1) * mu(i)
              IN P(k) * Q(n) IN
  MapThenSumSet(g, [1..k -> 1..n])

Marks(s, dom) == IF dom = "bg" THEN s.bg.mark ELSE s.em.mark
Active(s, t, c) == t.on = 0 \/ Marks(s, t.dom)[c] = t.on

\* Scale times the value of a term; env gives the field of each w
TermValue(s, t, env) ==
  LET mesh == MeshOf(s, t.dom)
      k == Len(t.fs)
      navg == Cardinality({j \in 1..k : t.fs[j].r = "avg"})
      d == Len(mesh.cells[1]) - 1
      unit == Scale \div (Fact(d + k) * Pow(2, navg))
      with(c, i) == [j \in 1..k |-> Factor(s, t.dom, c, t.fs[j], env[t.fs[j].w], IF t.pair /\ j <= 2 THEN i ELSE t.fs[j].comp)]
      onCell(c) == IF ~Active(s, t, c) THEN 0
                   ELSE Size(mesh.x, mesh.cells[c]) *
                        (IF t.pair THEN Monomials(with(c, 1), d + 1) + Monomials(with(c, 2), d + 1)
                                   ELSE Monomials(with(c, 0), d + 1)) IN
  t.c * unit * SumTo(onCell, Len(mesh.cells))

FormValue(s, terms, env) == LET g(i) == TermValue(s, terms[i], env) IN SumTo(g, Len(terms))
=============================================================================
