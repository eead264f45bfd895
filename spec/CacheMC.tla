------------------------------ MODULE CacheMC -------------------------------
EXTENDS Cache, Json
CONSTANTS NReq, NData, MaxOps
VARIABLES pol, memo, d, last, hist, ok
vars == <<pol, memo, d, last, hist, ok>>

Init == /\ pol \in {"full", "noreq", "nodata", "shared"}
        /\ memo = {} /\ d = 1 /\ last = <<0, 0>> /\ hist = <<>> /\ ok = TRUE
Ask(r) == /\ hist' = Append(hist, [op |-> "ask", r |-> r, d |-> d])
          /\ ok' = (Answer(Memories[pol], memo, r, d) = Meaning(r, d))
          /\ memo' = Learn(Memories[pol], memo, r, d)
          /\ last' = Key(Memories[pol], r, d)
          /\ UNCHANGED <<pol, d>>
Change == /\ d' = 1 + (d % NData) /\ hist' = Append(hist, [op |-> "change", r |-> 0, d |-> d'])
          /\ UNCHANGED <<pol, memo, last, ok>>
Spoil == /\ last # <<0, 0>> /\ hist[Len(hist)].op = "ask"
         /\ memo' = Damage(Memories[pol], memo, last)
         /\ hist' = Append(hist, [op |-> "spoil", r |-> 0, d |-> d]) /\ UNCHANGED <<pol, d, last, ok>>
\* a memory that was caught is not followed further
Next == ok /\ Len(hist) < MaxOps /\ ((\E r \in 1..NReq : Ask(r)) \/ (NData > 1 /\ Change) \/ Spoil)
Spec == Init /\ [][Next]_vars

Transparent == pol = "full" => ok
\* what a wrong memory needs in order to be seen
NeedsTwo == ~ok /\ pol = "noreq" => \E i, j \in DOMAIN hist : hist[i].op = "ask" /\ hist[j].op = "ask" /\ hist[i].r # hist[j].r
NeedsChange == ~ok /\ pol = "nodata" => \E i \in DOMAIN hist : hist[i].op = "change"
NeedsDamage == ~ok /\ pol = "shared" => \E i \in DOMAIN hist : hist[i].op = "spoil"
Emit == IF ~ok THEN PrintT("@@HIST " \o ToJson([pol |-> pol, h |-> hist])) ELSE TRUE
=============================================================================
