-------------------------------- MODULE Views --------------------------------
(* A view selects `len` consecutive elements of a base sequence, starting     *)
(* after the first `off`.  Sub-views select from a view.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES base,     \* the elements viewed, each a sequence of bytes as it lies in memory
          off, len
vvars == <<base, off, len>>

Min2(a, b) == IF a < b THEN a ELSE b
Elems == SubSeq(base, off + 1, off + len)

(* counts may be arbitrarily large: only what exists is selected *)
First(n) == len' = Min2(n, len) /\ off' = off /\ UNCHANGED base
Last(n) == len' = Min2(n, len) /\ off' = off + len - Min2(n, len) /\ UNCHANGED base
Rest(o) == off' = off + Min2(o, len) /\ len' = len - Min2(o, len) /\ UNCHANGED base
Middle(o, n) == off' = off + Min2(o, len) /\ len' = Min2(n, len - Min2(o, len)) /\ UNCHANGED base
Whole == off' = 0 /\ len' = Len(base) /\ UNCHANGED base

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))

Inside == off >= 0 /\ len >= 0 /\ off + len <= Len(base)
==============================================================================
