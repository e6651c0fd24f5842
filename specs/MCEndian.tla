------------------------------ MODULE MCEndian -------------------------------
EXTENDS Endian
CONSTANT B
VARIABLE v
Init == v \in [1..2 -> B] \cup [1..4 -> B]
Next == v' = Reversed(v) \/ (Len(v) = 4 /\ v' = Swap16x2(v))
Spec == Init /\ [][Next]_v
Involution == Reversed(Reversed(v)) = v /\ (Len(v) = 4 => Swap16x2(Swap16x2(v)) = v)
(* the two-halves conversion is the full reversal with the halves exchanged *)
Relation == Len(v) = 4 => Swap16x2(v) = LET r == Reversed(v) IN <<r[3], r[4], r[1], r[2]>>
SameBytes == \A i \in 1..Len(v) : \E j \in 1..Len(v) : Reversed(v)[j] = v[i]
==============================================================================
