---------------------------- MODULE BlockIndexMC ----------------------------
(* Laws of the index maps, for every layout and every grouping of distinct   *)
(* blocks of at most N blocks.                                               *)
EXTENDS BlockIndex
CONSTANTS N, MaxSize

RECURSIVE Splits(_)
\* all ways to cut a sequence into non-empty consecutive groups
Splits(s) == IF s = <<>> THEN {<<>>}
             ELSE UNION {{<<SubSeq(s, 1, k)>> \o r : r \in Splits(SubSeq(s, k + 1, Len(s)))} : k \in 1..Len(s)}
Orders(n) == UNION {{s \in [1..k -> 1..n] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 1..n}

VARIABLES sizes, groups, x, y
vars == <<sizes, groups, x, y>>
Init == /\ sizes \in UNION {[1..n -> 1..MaxSize] : n \in 1..N}
        /\ groups = <<>> /\ x = <<>> /\ y = <<>>
Next == /\ groups = <<>>
        /\ \E o \in Orders(Len(sizes)) : groups' \in Splits(o)
        /\ x' = [i \in 1..Total(sizes) |-> 3 * i - 4]
        /\ y' = [i \in 1..Len(Index(sizes, groups')) |-> i * i - 3]
        /\ UNCHANGED sizes
Spec == Init /\ [][Next]_vars

On == groups # <<>>
R(v) == Apply(sizes, groups, v)
Rt(v) == Adjoint(sizes, groups, v)
All == Len(Flat(groups)) = Len(sizes)
BackOrder == [k \in 1..Len(sizes) |-> <<CHOOSE j \in 1..Len(sizes) : Flat(groups)[j] = k>>]
NewSizes == [k \in DOMAIN Flat(groups) |-> sizes[Flat(groups)[k]]]
IdentityOrder == Flat(groups) = [k \in DOMAIN sizes |-> k]

AdjointLaw == On => DotV(R(x), y) = DotV(x, Rt(y))
RightInverse == On => R(Rt(y)) = y
Isometry == On => (All => Rt(R(x)) = x)
Projects == On => \A i \in 1..Total(sizes) : Rt(R(x))[i] \in {0, x[i]}
InverseArrangement == On => (All => Apply(NewSizes, BackOrder, R(x)) = x)
\* grouping alone never moves an entry
GroupingIsFree == On => /\ Apply(sizes, Singles(Flat(groups)), x) = R(x)
                        /\ (IdentityOrder => R(x) = x)
LayoutFits == On => /\ Total(Flat(Layout(sizes, groups, TRUE))) = Len(Index(sizes, groups))
                    /\ Flat(Layout(sizes, groups, FALSE)) = NewSizes
ReductionIsRearrangement ==
  On /\ IdentityOrder => groups = Contiguous([g \in DOMAIN groups |-> Len(Flat(SubSeq(groups, 1, g)))])
=============================================================================
