---------------------------- MODULE FormAsmTrace ----------------------------
(* State: the meshes, the fields of the coefficients, and the form (or block *)
(* of forms) which is assembled again after coefficients changed.            *)
EXTENDS FormAsm, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Names == {"v", "u", "c1", "c2"}
\* env of one evaluation: arguments from the event, coefficients from the state
EnvOf(s, ev) == [w \in Names |-> IF w \in DOMAIN ev.args THEN ev.args[w] ELSE s.coef[w]]

Right(s, terms, evals) == \A i \in DOMAIN evals : evals[i].val = FormValue(s, terms, EnvOf(s, evals[i]))

EntryBad(s, want, got) ==
  IF want.kind = "number" THEN Clause(got.kind = "number" /\ got.val = want.val, "number")
  ELSE Clause(got.kind = "tensor", "kind") \cup
       (IF got.kind = "tensor" THEN Clause(Right(s, want.terms, got.evals), "entry") ELSE {})

Verdict(e, s) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  CASE e.ev = "form" -> Clause(Right(s, e.terms, e.evals), "value")
    [] e.ev = "block" ->
         Clause(e.type = (IF e.rank = 1 THEN "block_vec" ELSE "block_mat"), "type")
         \cup Clause(Len(e.got) = Len(e.want) /\ \A i \in DOMAIN e.want : Len(e.got[i]) = Len(e.want[i]), "shape")
         \cup (IF Len(e.got) = Len(e.want) /\ \A i \in DOMAIN e.want : Len(e.got[i]) = Len(e.want[i])
               THEN UNION {UNION {EntryBad(s, e.want[i][j], e.got[i][j]) : j \in DOMAIN e.want[i]} : i \in DOMAIN e.want}
               ELSE {})

Step(e, s) ==
  CASE e.ev = "scene" -> [bad |-> {}, s |-> [bg |-> e.bg, em |-> e.em, sub |-> e.sub, normal |-> e.normal, coef |-> e.coef]]
    [] e.ev = "set" -> [bad |-> {}, s |-> [s EXCEPT !.coef[e.w].data = e.data]]
    [] e.ev \in {"form", "block"} -> [bad |-> Verdict(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
