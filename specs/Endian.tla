------------------------------- MODULE Endian --------------------------------
(* Byte-order conversion on values given as bytes, least significant first.   *)
EXTENDS Naturals, Integers, Sequences
Reversed(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
Swap16x2(b) == <<b[2], b[1], b[4], b[3]>>
==============================================================================
