-------------------------------- MODULE MCText -------------------------------
(* Exhaustive model of Text.  What an insertion appends depends on the text   *)
(* only through its length, so states are viewed without its contents.        *)
EXTENDS Text, TLC, Json

CONSTANTS Caps, Widths, Fills, Precs
MCWidths == {-1, 0, 1, 3, 6}
MCPrecs == {-1, 0, 1, 2, 9}

Strs == {<<>>, <<120>>, <<121, 122>>}
Ints == {<<48>>, <<45, 55>>, <<49, 50>>, <<45, 51, 52, 53>>}
ByteSeqs == {<<>>, <<0>>, <<165, 60>>}
Floats == {[g |-> TRUE, i |-> <<48>>, r |-> 1, k |-> 1], [g |-> FALSE, i |-> <<51>>, r |-> 3, k |-> 2],
           [g |-> TRUE, i |-> <<49, 50>>, r |-> 0, k |-> 0]}

VARIABLE act
mvars == <<cap, text, width, fill, prec, act>>

Init == (\E c \in Caps : TextInit(c)) /\ act = [a |-> "init"]
Next == \/ \E s \in Strs : Str(s) /\ act' = [a |-> "str", s |-> s]
        \/ Char(113) /\ act' = [a |-> "char", c |-> 113]
        \/ \E d \in Ints : Number(d) /\ act' = [a |-> "int", s |-> d]
        \/ Byte(95) /\ act' = [a |-> "byte", c |-> 95]
        \/ \E b \in ByteSeqs : Bytes(b) /\ act' = [a |-> "bytes", s |-> b]
        \/ \E f \in Floats : Float(f.g, f.i, f.r, f.k) /\ act' = [a |-> "float", g |-> f.g, s |-> f.i, r |-> f.r, k |-> f.k]
        \/ \E w \in Widths : SetWidth(w) /\ act' = [a |-> "width", c |-> w]
        \/ \E c \in Fills : SetFill(c) /\ act' = [a |-> "fill", c |-> c]
        \/ \E p \in Precs : SetPrec(p) /\ act' = [a |-> "prec", c |-> p]
        \/ Clear /\ act' = [a |-> "clear"]
Spec == Init /\ [][Next]_mvars

St == [cap |-> cap, len |-> Len(text), w |-> width, f |-> fill, p |-> prec]
View == St
Emit == PrintT("@T@" \o ToJson(St) \o "|" \o ToJson(act') \o "|" \o ToJson(St'))

AppendOnly == [][act'.a = "clear" \/ IsPrefixOf(text, text')]_mvars
WholeNumbers == [][act'.a = "int" =>
                     \/ text' = text
                     \/ /\ Len(text') - Len(text) >= Len(act'.s)
                        /\ SubSeq(text', Len(text') - Len(act'.s) + 1, Len(text')) = act'.s
                        /\ Len(text') - Len(text) >= width
                        /\ width' = 0]_mvars
HexPairs == [][act'.a \in {"byte", "bytes"} => (Len(text') - Len(text)) % 2 = 0]_mvars
WidthKept == [][act'.a \notin {"int", "width", "clear"} => width' = width]_mvars
==============================================================================
