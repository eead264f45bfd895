----------------------------- MODULE GluingTrace ----------------------------
EXTENDS Gluing, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Step(e, s) ==
  CASE e.ev = "meshes" -> [bad |-> {}, s |-> e.meshes]
    [] e.ev = "union" -> LET ins == [k \in DOMAIN e.of |-> s[e.of[k]]] IN
         [bad |-> IF e.out # "ok" THEN {"refused"} ELSE UnionFaults(e.r, ins) \cup Clause(e.after = s, "touched") \cup Clause(e.leafs, "old-maps"),
          s |-> IF e.out = "ok" THEN Append(s, [x |-> e.r.x, cells |-> e.r.cells]) ELSE s]
    [] e.ev = "line" -> [bad |-> IF e.out # "ok" THEN {"refused"} ELSE LineFaults(e.r, e.branches), s |-> s]
    [] e.ev = "table" -> [bad |-> IF e.out # "ok" THEN {"refused"} ELSE TableFaults(e.r, e.nodes, e.cells, e.ctags, e.low), s |-> s]
    [] e.ev = "model" -> [bad |-> IF e.out # "ok" THEN {"refused"} ELSE ModelFaults(e.nodes, e.els, e.parts), s |-> s]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
