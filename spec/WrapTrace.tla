----------------------------- MODULE WrapTrace ------------------------------
EXTENDS Wrap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

\* the operator: entries, sizes of the blocks of range and domain as reported by the wrapper
New(e) ==
  LET A == IF e.comps = <<>> THEN e.A ELSE Vectorized(e.A, e.comps) IN
  [bad |-> IF e.out # "ok" THEN {"refused"} ELSE
           Clause(e.size = <<Len(A), Cols(A)>>, "size") \cup Clause(e.inv = <<>> \/ Inverses(e.inv, A), "driver"),
   s |-> [A |-> A, X |-> e.X, Y |-> e.Y]]
Stepped(e, s) ==
  LET t == Exec(s, e) IN
  [bad |-> IF e.out # "ok" THEN {"refused " \o e.op} ELSE
           Clause(e.X = t.X /\ e.Y = t.Y,
                  IF (IF e.op \in {"mult", "sety", "scaley"} THEN e.Y[e.j] = t.Y[e.j] ELSE e.X[e.i] = t.X[e.i]) THEN "another vector changed" ELSE e.op),
   s |-> t]
\* whole matrix
Whole(e, s) == IF e.out # "ok" THEN {"refused whole"} ELSE Clause(e.got = s.A, "matrix") \cup Clause(e.again = s.A, "matrix again")
\* null space attached to the operator: part of u outside of it
Removed(e, s) == IF e.out # "ok" THEN {"refused null"} ELSE
  Clause(e.D = DetN(Gram(e.Z, IdM(Len(e.u)))) /\ e.w = Proj(e.Z, IdM(Len(e.u)), e.u), "null space")
Solve(e, s) ==
  IF e.out # "ok" THEN {"refused " \o e.how} ELSE
  Clause(e.layout = e.sizes, "layout")
  \cup (IF Len(e.x) # Cols(s.A) THEN {"length"} ELSE Clause(BAD \notin Elems(e.x) /\ Solves(s.A, e.b, e.x, e.D), "solution")
        \cup Clause(\A k \in DOMAIN e.Z : DotV(e.Z[k], e.x) = 0, "null component"))
  \cup Clause(e.kept, "right hand side changed")

Step(e, s) ==
  CASE e.ev = "new" -> New(e)
    [] e.ev = "step" -> Stepped(e, s)
    [] e.ev = "whole" -> [bad |-> Whole(e, s), s |-> s]
    [] e.ev = "null" -> [bad |-> Removed(e, s), s |-> s]
    [] e.ev = "solve" -> [bad |-> Solve(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
