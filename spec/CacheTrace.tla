---------------------------- MODULE CacheTrace ------------------------------
EXTENDS Cache, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

\* st: what each request yields when it is the first one, a set of [r, d, out, val]
Fresh(e, s) == s \cup {[r |-> e.r, d |-> e.d, out |-> e.out, val |-> e.val]}
Asked(e, s) ==
  IF ~\E m \in s : m.r = e.r /\ m.d = e.d THEN {"driver"} ELSE
  LET m == CHOOSE m \in s : m.r = e.r /\ m.d = e.d IN
  IF (e.out = "ok") # (m.out = "ok") THEN {IF e.out = "ok" THEN "answered now" ELSE "refused now"} ELSE
  Clause(Close(e.val, m.val), "another answer")

Step(e, s) ==
  CASE e.ev = "new" -> [bad |-> {}, s |-> {}]
    [] e.ev = "fresh" -> [bad |-> Clause(e.due => e.out = "ok", "refused"), s |-> Fresh(e, s)]
    [] e.ev = "ask" -> [bad |-> Asked(e, s), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
