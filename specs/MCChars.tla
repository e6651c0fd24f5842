------------------------------- MODULE MCChars -------------------------------
(* The byte-wise recogniser with its buffer, fed texts over an alphabet of    *)
(* characters of one to four bytes: each comes out once, with its last byte.  *)
(* A byte that is part of no character ends the character begun, if any.      *)
EXTENDS Converter, TLC, Json
CONSTANT MaxLen
Alphabet == {65, 127, 128, 233, 2047, 2048, 8364, 65535, 65536, 128512, 1114111}
VARIABLES buf, cur, pos, n, out, act     \* cur: the character being fed
vars == <<buf, cur, pos, n, out, act>>
Init == buf = <<>> /\ cur = 0 /\ pos = 0 /\ n = 0 /\ out = <<>> /\ act = [c |-> -1]
Complete(b) == \E c \in Alphabet : Utf8(c) = b
Begins(b) == \E c \in Alphabet : Len(Utf8(c)) > Len(b) /\ SubSeq(Utf8(c), 1, Len(b)) = b
Feed(byte) == LET b == Append(buf, byte) IN
              IF ~Complete(b) /\ ~Begins(b) THEN buf' = <<>> /\ UNCHANGED out
              ELSE IF Complete(b) THEN buf' = <<>> /\ out' = Append(out, CHOOSE c \in Alphabet : Utf8(c) = b)
              ELSE buf' = b /\ UNCHANGED out
Next == \/ pos = 0 /\ n < MaxLen /\ \E c \in Alphabet : /\ cur' = c /\ n' = n + 1 /\ act' = [c |-> c]
                                                     /\ Feed(Utf8(c)[1]) /\ pos' = IF Len(Utf8(c)) = 1 THEN 0 ELSE 1
        \/ pos > 0 /\ Feed(Utf8(cur)[pos + 1]) /\ pos' = (IF pos + 1 = Len(Utf8(cur)) THEN 0 ELSE pos + 1)
           /\ UNCHANGED <<cur, n>> /\ act' = [c |-> cur]
        \/ Feed(255) /\ n' = (IF pos > 0 THEN n - 1 ELSE n) /\ pos' = 0 /\ UNCHANGED cur /\ act' = [c |-> -2]
Spec == Init /\ [][Next]_vars
OnceEach == Len(out) = n - (IF pos > 0 THEN 1 ELSE 0) /\ (pos = 0 <=> buf = <<>>)
LastByte == [][Len(out') > Len(out) => pos' = 0 /\ out' = Append(out, cur')]_vars
Prefix == \A c \in Alphabet : \A d \in Alphabet : c # d /\ Len(Utf8(c)) <= Len(Utf8(d)) => SubSeq(Utf8(d), 1, Len(Utf8(c))) # Utf8(c)
==============================================================================
