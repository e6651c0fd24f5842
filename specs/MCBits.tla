------------------------------- MODULE MCBits --------------------------------
(* The packer with its byte buffer and count, against the bits written.       *)
EXTENDS Converter, TLC, Json
CONSTANTS MaxOps, Bytes
VARIABLES buffer, count, out, all, n, act     \* all: every bit written, flushes padded
vars == <<buffer, count, out, all, n, act>>
Pow(k) == 2 ^ k
Init == buffer = 0 /\ count = 0 /\ out = <<>> /\ all = <<>> /\ n = 0 /\ act = [a |-> "init"]
Bit(b) == LET v == buffer + (IF b = 1 THEN Pow(7 - count) ELSE 0) IN
          /\ all' = Append(all, b)
          /\ IF count = 7 THEN out' = Append(out, v) /\ buffer' = 0 /\ count' = 0
             ELSE out' = out /\ buffer' = v /\ count' = count + 1
          /\ act' = [a |-> "bit", v |-> b]
Byte(b) == /\ all' = all \o BitsOf(b)
           /\ IF count = 0 THEN out' = Append(out, b) /\ UNCHANGED buffer
              ELSE out' = Append(out, buffer + b \div Pow(count)) /\ buffer' = (b * Pow(8 - count)) % 256
           /\ UNCHANGED count /\ act' = [a |-> "byte", v |-> b]
Flush == /\ all' = all \o (IF count = 0 THEN <<>> ELSE [i \in 1..(8 - count) |-> 0])
         /\ out' = IF count = 0 THEN out ELSE Append(out, buffer)
         /\ buffer' = 0 /\ count' = 0 /\ act' = [a |-> "flush", v |-> 0]
Next == n < MaxOps /\ n' = n + 1 /\ ((\E b \in {0, 1} : Bit(b)) \/ (\E b \in Bytes : Byte(b)) \/ Flush)
Spec == Init /\ [][Next]_vars
View == <<buffer, count, out, all, n>>
Same == /\ out = PackBits(SubSeq(all, 1, Len(out) * 8))
        /\ Len(all) = Len(out) * 8 + count
        /\ count > 0 => <<buffer>> = Padded(SubSeq(all, Len(out) * 8 + 1, Len(all)))
(* the states differ by history; transitions are emitted by what is pending *)
Short == [b |-> buffer, c |-> count]
ViewShort == <<buffer, count>>
Emit == PrintT("@T@" \o ToJson(Short) \o "|" \o ToJson(act') \o "|" \o ToJson(Short'))
==============================================================================
