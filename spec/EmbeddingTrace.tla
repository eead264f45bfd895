--------------------------- MODULE EmbeddingTrace ---------------------------
EXTENDS Embedding, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

\* st = [em, bg (sequence), known (one per background)]
Empty == [em |-> [x |-> <<>>, cells |-> <<>>, mark |-> <<>>], bg |-> <<>>, known |-> <<>>]

Step(e, s) ==
  CASE e.ev = "mesh" -> [bad |-> {}, s |-> [em |-> [x |-> e.x, cells |-> e.cells, mark |-> e.mark], bg |-> <<>>, known |-> <<>>]]
    [] e.ev = "background" ->
         [bad |-> Clause(IsEntityTable(e.ents, e, e.dim), "driver"),
          s |-> [s EXCEPT !.bg = Append(@, [x |-> e.x, ents |-> e.ents]), !.known = Append(@, Nothing(s.em))]]
    [] e.ev = "request" ->        \* by tags; e.known is what is known of every background afterwards
         [bad |-> UNION {RequestFaults(s.em, s.bg[b], IF b = e.bg THEN CellsOf(s.em, Elems(e.tags)) ELSE {},
                                       s.known[b], e.known[b], b # e.bg \/ e.out = "ok") : b \in DOMAIN s.bg},
          s |-> [s EXCEPT !.known = e.known]]
    [] e.ev = "build" ->          \* a map computed from scratch, nothing is remembered
         [bad |-> RequestFaults(s.em, s.bg[e.bg], IF e.all THEN DOMAIN s.em.cells ELSE CellsOf(s.em, Elems(e.tags)),
                                Nothing(s.em), e.got, e.out = "ok"),
          s |-> s]
    [] e.ev = "embed" ->          \* entities of the background with the tags looked up in the mesh
         LET bg == s.bg[e.bg]
             T == {f \in DOMAIN bg.ents : e.vals[f] \in Elems(e.tags)}
             cells == {c \in DOMAIN s.em.cells : Images(s.em, bg, c) \cap T # {}}
             found == \A f \in T : \E c \in DOMAIN s.em.cells : f \in Images(s.em, bg, c)
             known == \E c \in DOMAIN s.known[e.bg].c : s.known[e.bg].c[c] # 0 IN
         [bad |-> IF found /\ ~known THEN RequestFaults(s.em, bg, cells, s.known[e.bg], e.known[e.bg], e.out = "ok")
                  ELSE RequestFaults(s.em, bg, {}, s.known[e.bg], e.known[e.bg], TRUE)
                       \cup Clause(e.out # "ok", "accepted"),
          s |-> [s EXCEPT !.known = e.known]]
    [] OTHER -> [bad |-> {e.ev}, s |-> Empty]

Init == l = 1 /\ st = Empty
Next == /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l], st) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> r.bad]))
           /\ st' = r.s
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
