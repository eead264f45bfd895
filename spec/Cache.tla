------------------------------- MODULE Cache --------------------------------
(* Requests for operators answered from a memory of earlier answers.        *)
(* A request r has a meaning which depends on r and on the present data d   *)
(* (fields, markers the request refers to).  A memory is transparent when   *)
(* nobody can tell it is there, whatever was asked, changed or done to the  *)
(* answers before.                                                          *)
EXTENDS Common

\* kinds of memory: what enters the key, whether answers are handed out as they are kept
Memories == [full  |-> [req |-> TRUE,  data |-> TRUE,  own |-> TRUE],
             noreq |-> [req |-> FALSE, data |-> TRUE,  own |-> TRUE],
             nodata |-> [req |-> TRUE, data |-> FALSE, own |-> TRUE],
             shared |-> [req |-> TRUE, data |-> TRUE,  own |-> FALSE]]

Meaning(r, d) == <<r, d>>
Spoilt == <<0, 0>>
Key(pol, r, d) == <<IF pol.req THEN r ELSE 0, IF pol.data THEN d ELSE 0>>
Known(memo, k) == \E m \in memo : m.k = k
Recall(memo, k) == (CHOOSE m \in memo : m.k = k).v
Answer(pol, memo, r, d) == LET k == Key(pol, r, d) IN IF Known(memo, k) THEN Recall(memo, k) ELSE Meaning(r, d)
Learn(pol, memo, r, d) == LET k == Key(pol, r, d) IN IF Known(memo, k) THEN memo ELSE memo \cup {[k |-> k, v |-> Meaning(r, d)]}
\* the last answer is scaled, constrained, ... in place
Damage(pol, memo, k) == IF pol.own THEN memo ELSE {IF m.k = k THEN [m EXCEPT !.v = Spoilt] ELSE m : m \in memo}

\* tensors are compared up to round off of the recording
Close(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A j \in DOMAIN a[i] : AbsN(a[i][j] - b[i][j]) <= 2
=============================================================================
