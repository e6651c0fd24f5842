------------------------------- MODULE MCSerial ------------------------------
(* Exhaustive model of SerialOut; ghost `line` holds what was inserted since  *)
(* the last marker and fitted.                                                *)
EXTENDS SerialOut, TLC, Json
CONSTANTS Caps
Strs == {<<>>, <<97>>, <<98, 99>>}
Ints == {<<48>>, <<45, 49, 50>>}
VARIABLES line, act
mvars == <<svars, line, act>>
Init == (\E k \in Caps : TextInit(k)) /\ out = <<>> /\ line = <<>> /\ act = [a |-> "init"]
Ins(op, a) == Insert(op) /\ act' = a /\ line' = line \o SubSeq(text', Len(text) + 1, Len(text'))
Next == \/ \E s \in Strs : Ins(Str(s), [a |-> "str", s |-> s])
        \/ \E s \in Ints : Ins(Number(s), [a |-> "int", s |-> s])
        \/ Ins(Byte(95), [a |-> "byte", c |-> 95])
        \/ Ins(Bytes(<<1, 254>>), [a |-> "bytes", s |-> <<1, 254>>])
        \/ Ins(Float(TRUE, <<48>>, 1, 1), [a |-> "float", g |-> TRUE, s |-> <<48>>, r |-> 1, k |-> 1])
        \/ \E p \in {0, 2} : Insert(SetPrec(p)) /\ act' = [a |-> "prec", c |-> p] /\ UNCHANGED line
        \/ End /\ act' = [a |-> "end"] /\ line' = <<>>
        \/ Endl /\ act' = [a |-> "endl"] /\ line' = <<>>
Spec == Init /\ [][Next]_mvars
St == [cap |-> cap, len |-> Len(text), p |-> prec]
View == <<St, Len(line)>>
Emit == PrintT("@T@" \o ToJson(St) \o "|" \o ToJson(act') \o "|" \o ToJson(St'))
\* every line is sent completely, once, and nothing else is
LineSent == [][/\ act'.a = "end" => out' = line
               /\ act'.a = "endl" => out' = line \o <<Newline>>
               /\ act'.a \notin {"end", "endl"} => out' = <<>>]_mvars
Fresh == [][act'.a \in {"end", "endl"} => text' = <<>> /\ prec' = 0 /\ width' = 0 /\ fill' = Space]_mvars
==============================================================================
