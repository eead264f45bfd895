---------------------------- MODULE EmbeddingMC -----------------------------
(* Histories of tag requests of one embedded mesh against two backgrounds.  *)
(* The library may answer a request by any sound, complete growth of what   *)
(* it knows: TLC checks that then everything asked for is known and stays   *)
(* known whatever the order, and emits the histories.                       *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Tags, Cells, Backgrounds, Depth

\* the mark of every cell; the tags of a background that are embedded in it
VARIABLES mark, good, known, asked, hist
vars == <<mark, good, known, asked, hist>>

Init == /\ mark \in {f \in [Cells -> Tags] : \A t \in Tags : \E c \in Cells : f[c] = t}
        /\ good \in [Backgrounds -> {Tags, Tags \ {3}}]
        /\ known = [b \in Backgrounds |-> {}]
        /\ asked = [b \in Backgrounds |-> {}]
        /\ hist = <<>>

CellsOf(T) == {c \in Cells : mark[c] \in T}

Request(b, T) ==
  /\ Len(hist) < Depth
  /\ LET ok == T \subseteq good[b] IN
     /\ \E extra \in SUBSET (CellsOf(good[b]) \ (known[b] \cup CellsOf(T))) :
          known' = [known EXCEPT ![b] = @ \cup extra \cup (IF ok THEN CellsOf(T) ELSE {})]
     /\ asked' = [asked EXCEPT ![b] = IF ok THEN @ \cup T ELSE @]
     /\ hist' = Append(hist, [bg |-> b, tags |-> T])
  /\ UNCHANGED <<mark, good>>

Next == \E b \in Backgrounds : \E T \in (SUBSET Tags) \ {{}} : Request(b, T)
Spec == Init /\ [][Next]_vars

Complete == \A b \in Backgrounds : CellsOf(asked[b]) \subseteq known[b]
Sound == \A b \in Backgrounds : known[b] \subseteq CellsOf(good[b])
Grows == [][\A b \in Backgrounds : known[b] \subseteq known'[b]]_vars
Emit == (Len(hist) = Depth /\ known = [b \in Backgrounds |-> CellsOf(good[b])]) =>
           PrintT("@@HIST " \o ToJson([steps |-> hist, bad |-> {b \in Backgrounds : 3 \notin good[b]}]))
=============================================================================
