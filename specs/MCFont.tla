------------------------------- MODULE MCFont --------------------------------
(* Texts are typed character by character with a pen; small fonts whose       *)
(* glyphs stick out on every side.                                            *)
EXTENDS Font, TLC, Json
CONSTANTS MaxLen, Codes
VARIABLES text, pen, dots, last, act
vars == <<text, pen, dots, last, act>>
CodesQ == {32, 33, 65, 126, 127, 159, 160, 200, 255}
CodesT == {0, 31, 32, 33, 34, 35, 36, 65, 97, 126, 127, 128, 159, 160, 161, 200, 254, 255}
Wd(i) == i % 4  Ht(i) == (i \div 2) % 4
Byte(i, k) == (i * 37 + k * 91 + 129) % 256
Raw(i) == [w |-> Wd(i), h |-> Ht(i), ox |-> (i % 5) - 2, oy |-> (i % 7) - 5, adv |-> i % 6,
           bits |-> [k \in 1..((Wd(i) * Ht(i) + 7) \div 8) |-> Byte(i, k)]]
Table == [i \in 1..191 |-> Raw(i)]
Glyph(c) == GlyphOf(c, Table, last)
Init == text = <<>> /\ pen = 0 /\ dots = {} /\ last \in {126, 255} /\ act = [c |-> -1]
Type(c) == /\ Len(text) < MaxLen
           /\ text' = Append(text, c) /\ pen' = pen + Glyph(c).adv
           /\ dots' = dots \cup Dots(Glyph(c), <<pen, 0>>)
           /\ act' = [c |-> c] /\ UNCHANGED last
Next == \E c \in Codes : Type(c)
Spec == Init /\ [][Next]_vars
View == <<text, last>>
Emit == PrintT("@T@" \o ToJson([t |-> text, last |-> last]) \o "|" \o ToJson(act') \o "|" \o ToJson([t |-> text', last |-> last]))
Together == dots = TextDots(text, <<0, 0>>, Table, last) /\ pen = Pen(text, Table, last)
BoundsFit == Fits(text, Bounds(text, Table, last), Table, last)
(* every code has its own glyph, all glyphs are used, and the others show the first *)
OwnGlyph == text = <<>> => LET own == {c \in 0..255 : HasCode(c, last)} IN
   /\ Cardinality(own) = Count(last)
   /\ {Index(c, last) : c \in own} = 1..Count(last)
   /\ \A c \in (0..255) \ own : Index(c, last) = 1
   /\ \A c \in own : \A d \in own : c < d => Index(c, last) < Index(d, last)
==============================================================================
