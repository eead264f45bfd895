--------------------------- MODULE JacobianTrace ----------------------------
(* State: the meshes and the coefficients.  Events: assembled derivatives   *)
(* of one form, block Jacobians, and derivatives of forms with other        *)
(* reductions next to the values of the form around the point.              *)
EXTENDS Jacobian, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Names == {"v", "u", "c1", "c2"}
EnvOf(s, ev) == [w \in Names |-> IF w \in DOMAIN ev.args THEN ev.args[w] ELSE s.coef[w]]
Right(s, terms, evals) == \A i \in DOMAIN evals : evals[i].val = JForm(s, terms, EnvOf(s, evals[i]))

\* one entry: nothing at all where there is no dependence
Entry(s, terms, x, got) ==
  IF Depends(terms, x)
  THEN Clause(got.kind = "tensor", "structure") \cup (IF got.kind = "tensor" THEN Clause(Right(s, Der(terms, x), got.evals), "derivative") ELSE {})
  ELSE Clause(got.kind = "zero", "structure")

Jac(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(Len(e.got) = Len(e.rows) /\ \A i \in DOMAIN e.got : Len(e.got[i]) = 2, "shape")
  \cup (IF Len(e.got) = Len(e.rows) /\ \A i \in DOMAIN e.got : Len(e.got[i]) = 2
        THEN UNION {UNION {Entry(s, e.rows[i], <<"c1", "c2">>[j], e.got[i][j]) : j \in 1..2} : i \in DOMAIN e.rows} ELSE {})

\* values are rounded to integers: each may be off by 1/2
Near(a, b, tol) == AbsN(a - b) <= tol
Diff(e) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  UNION {LET p == e.probes[i] IN Clause(Near(12 * p.D, 8 * (p.F[4] - p.F[2]) - (p.F[5] - p.F[1]), 30), "difference") : i \in DOMAIN e.probes}

Step(e, s) ==
  CASE e.ev = "scene" -> [bad |-> {}, s |-> [bg |-> e.bg, em |-> e.em, sub |-> e.sub, normal |-> e.normal, coef |-> e.coef]]
    [] e.ev = "set" -> [bad |-> {}, s |-> [s EXCEPT !.coef[e.w].data = e.data]]
    [] e.ev = "jac" -> [bad |-> Jac(e, s), s |-> s]
    [] e.ev = "diff" -> [bad |-> Diff(e), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
