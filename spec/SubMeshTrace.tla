---------------------------- MODULE SubMeshTrace ----------------------------
(* Conformance: recorded histories of extractions.  The state is the world  *)
(* of meshes and markings created so far; every event must extend it as     *)
(* SubMesh prescribes and must leave all of it unchanged.                   *)
EXTENDS SubMesh, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, world
vars == <<l, world>>

\* world = [mesh |-> Seq([x, cells, mark]), marking |-> Seq([mesh, ents, vals])]
Empty == [mesh |-> <<>>, marking |-> <<>>]

\* [bad, next state]
Step(e, w) ==
  CASE e.ev = "root" ->
         [bad |-> {}, w |-> [mesh |-> <<[x |-> e.x, cells |-> e.cells, mark |-> <<>>]>>, marking |-> <<>>]]
    [] e.ev = "marking" ->
         [bad |-> Clause(IsEntityTable(e.ents, w.mesh[e.mesh], e.dim), "driver"),
          w |-> [w EXCEPT !.marking = Append(@, [mesh |-> e.mesh, ents |-> e.ents, vals |-> e.vals])]]
    [] e.ev = "extract" ->
         LET mk == w.marking[e.marking] IN
         [bad |-> IF e.out # "ok" THEN {"refused"} ELSE
                  ExtractionFaults(e.sub, w.mesh[mk.mesh], mk.ents, mk.vals, Elems(e.tags))
                  \cup Clause(e.keyok, "keys")
                  \cup Clause(Elems(e.tagged) = Elems(e.tags), "tagged"),
          w |-> IF e.out # "ok" THEN w ELSE
                [w EXCEPT !.mesh = Append(@, [x |-> e.sub.x, cells |-> e.sub.cells, mark |-> e.sub.mark])]]
    [] e.ev = "skeleton" ->
         LET m == w.mesh[e.mesh] IN
         [bad |-> IF e.out # "ok" THEN {"refused"} ELSE
                  ExtractionFaults(e.sub, m, e.ents, SkeletonVals(e.ents, m.cells, e.bdry), {1}),
          w |-> w]
    [] e.ev = "overlap" ->
         [bad |-> IF e.out # "ok" THEN {"refused"} ELSE
                  OverlapFaults(e.sub, w.mesh[e.m1], w.mesh[e.m2], e.tag), w |-> w]
    [] e.ev = "audit" ->
         [bad |-> Clause(Len(e.meshes) = Len(w.mesh) /\ Len(e.markings) = Len(w.marking), "driver")
                  \cup Clause(\A i \in DOMAIN w.mesh : w.mesh[i].x = e.meshes[i].x /\ w.mesh[i].cells = e.meshes[i].cells
                                                       /\ w.mesh[i].mark = e.meshes[i].mark, "mesh-modified")
                  \cup Clause(\A i \in DOMAIN w.marking : w.marking[i].vals = e.markings[i], "marking-modified"),
          w |-> Empty]
    [] OTHER -> [bad |-> {e.ev}, w |-> Empty]

Init == l = 1 /\ world = Empty
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], world) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ world' = r.w
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
