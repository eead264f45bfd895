------------------------------- MODULE LineMC -------------------------------
(* Line meshes of sequences of branches: ends numbered first, as they are    *)
(* met, interior points after them.                                          *)
EXTENDS Gluing, Json

CONSTANTS MaxB
Pool == {<<1, 2>>, <<1, 3, 2>>, <<2, 4>>, <<4, 5, 6, 1>>, <<2, 7, 8, 2>>, <<9, 10>>}
P(k) == <<k, (k * k) % 7>>
Branch(b) == [i \in DOMAIN b |-> P(b[i])]

VARIABLES bs, phase, x, bounds, cells
vars == <<bs, phase, x, bounds, cells>>
Init == bs = <<>> /\ phase = "take" /\ x = <<>> /\ bounds = <<>> /\ cells = <<>>

AddPoint(y, p) == IF \E i \in DOMAIN y : y[i] = p THEN y ELSE Append(y, p)
At(y, p) == CHOOSE i \in DOMAIN y : y[i] = p
Take == /\ phase = "take" /\ Len(bs) < MaxB
        /\ \E b \in Pool : /\ \A i \in DOMAIN bs : bs[i] # b
                           /\ bs' = Append(bs, b)
                           /\ LET q == Branch(b)
                                  y == AddPoint(AddPoint(x, q[1]), q[Len(q)]) IN
                              /\ x' = y
                              /\ bounds' = Append(bounds, <<At(y, q[1]), At(y, q[Len(q)])>>)
        /\ UNCHANGED <<phase, cells>>
Fill == /\ phase = "take" /\ bs # <<>> /\ phase' = "fill" /\ UNCHANGED <<bs, x, bounds, cells>>
Place == /\ phase = "fill" /\ bounds # <<>>
         /\ LET k == Len(bs) - Len(bounds) + 1
                q == Branch(bs[k])
                n == Len(q) - 2
                vm == <<bounds[1][1]>> \o [i \in 1..n |-> Len(x) + i] \o <<bounds[1][2]>> IN
            /\ x' = x \o Inner(q)
            /\ cells' = cells \o [i \in 1..(n + 1) |-> <<vm[i], vm[i + 1]>>]
         /\ bounds' = Tail(bounds)
         /\ UNCHANGED <<bs, phase>>
Next == Take \/ Fill \/ Place
Spec == Init /\ [][Next]_vars
Done == phase = "fill" /\ bounds = <<>>
Sound == Done => LineFaults([x |-> x, cells |-> cells], [i \in DOMAIN bs |-> Branch(bs[i])]) = {}
Emit == Done => PrintT("@@LINE " \o ToJson([branches |-> [i \in DOMAIN bs |-> Branch(bs[i])]]))
=============================================================================
