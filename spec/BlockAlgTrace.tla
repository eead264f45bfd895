--------------------------- MODULE BlockAlgTrace ----------------------------
(* Conformance: each recorded conversion must be what the expression means. *)
EXTENDS BlockAlg, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

\* expression converted by the recursive (ii_convert) or graph (monolithic) algorithm
ProgVerdict(e) ==
  IF e.out # "ok" THEN {"refused"}
  ELSE LET d == Denote(e.prog, e.leaves) IN
       Clause(e.got = d.a, "value")
       \cup Clause(e.after = e.leaves, "operands")
       \cup Clause(e.again = d.a, "repeat")

BmatVerdict(e) ==
  IF ~WellFormed(e.rs, e.cs, e.ents) THEN {"driver"}
  ELSE IF e.out # "ok" THEN {"refused"}
  ELSE LET m == Monolithic(e.rs, e.cs, e.ents, e.leaves) IN
       Clause(e.got = m, "value")
       \cup Clause(e.after = e.leaves, "operands")
       \cup Clause(\A i \in DOMAIN e.blocks : \A j \in DOMAIN e.blocks[i] :
                     e.blocks[i][j] = Entry(e.ents[i][j], e.leaves, e.rs[i], e.cs[j]), "blocks")

BvecVerdict(e) ==
  IF e.out # "ok" THEN {"refused"} ELSE
  Clause(e.got = Flat(e.vecs), "value") \cup Clause(e.after = e.vecs, "operands")

Verdict(e) ==
  CASE e.ev = "prog" -> ProgVerdict(e)
    [] e.ev = "bmat" -> BmatVerdict(e)
    [] e.ev = "bvec" -> BvecVerdict(e)
    [] OTHER -> {e.ev}

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET bad == Verdict(Trace[l]) IN
                IF bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([case |-> Trace[l].case, l |-> l, clauses |-> bad]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
