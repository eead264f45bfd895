---------------------------- MODULE MarkersTrace ----------------------------
(* State: all meshes with their maps, all markings made or transferred.      *)
EXTENDS Markers, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

TransferBad(e, s) ==
  LET p == s.markings[e.from]
      ch == [cells |-> s.meshes[e.to].cells, vmap |-> e.vmap, cmap |-> e.cmap]
      n == Len(s.meshes[e.to].x)
      tags == IF e.all THEN Elems(p.vals) ELSE Elems(e.tags)
      old == IF e.onto = 0 THEN [i \in DOMAIN e.ents |-> 0] ELSE s.markings[e.onto].vals IN
  IF ~(Len(e.vmap) = n /\ \A v \in 1..n : e.vmap[v] # 0 => e.vmap[v] \in DOMAIN s.meshes[p.mesh].x /\ s.meshes[p.mesh].x[e.vmap[v]] = s.meshes[e.to].x[v]) THEN {"maps"} ELSE
  IF e.out # "ok" THEN {"refused"} ELSE
  TransferFaults(ch, e.ents, p.ents, p.vals, tags, old, e.vals)
  \cup Clause(e.after = p.vals, "touched")

Step(e, s) ==
  CASE e.ev = "meshes" -> [bad |-> {}, s |-> [meshes |-> e.meshes, markings |-> <<>>]]
    [] e.ev = "marking" -> [bad |-> Clause(IsEntityTable(e.ents, s.meshes[e.mesh], e.dim), "driver"),
                            s |-> [s EXCEPT !.markings = Append(@, [mesh |-> e.mesh, ents |-> e.ents, vals |-> e.vals])]]
    [] e.ev = "transfer" -> [bad |-> TransferBad(e, s),
                             s |-> IF e.out # "ok" THEN s ELSE [s EXCEPT !.markings = IF e.onto = 0 THEN Append(@, [mesh |-> e.to, ents |-> e.ents, vals |-> e.vals])
                                                                ELSE [@ EXCEPT ![e.onto].vals = e.vals]]]
    [] OTHER -> [bad |-> {e.ev}, s |-> s]

Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
