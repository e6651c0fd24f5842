--------------------------------- MODULE Text --------------------------------
(* The fixed-capacity text buffer.  Characters are numbers 0..255.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES cap,      \* capacity of the supplied buffer
          text,     \* the characters written so far
          width,    \* pending minimum width of the next integer
          fill,     \* padding character
          prec      \* decimal digits of floating-point numbers
xvars == <<cap, text, width, fill, prec>>

Min2(a, b) == IF a < b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Rep(c, n) == [i \in 1..n |-> c]
Room == cap - Len(text)
Space == 32

TextInit(c) == cap = c /\ text = <<>> /\ width = 0 /\ fill = Space /\ prec = 0
Clear == text' = <<>> /\ width' = 0 /\ fill' = Space /\ prec' = 0 /\ UNCHANGED cap

SetWidth(w) == width' = w /\ UNCHANGED <<cap, text, fill, prec>>
SetFill(c) == fill' = c /\ UNCHANGED <<cap, text, width, prec>>
SetPrec(p) == prec' = p /\ UNCHANGED <<cap, text, width, fill>>

(* text is cut where the buffer ends *)
AppendCut(s) == text' = text \o Take(s, Room) /\ UNCHANGED <<cap, width, fill, prec>>
Str(s) == AppendCut(s)
Char(c) == AppendCut(<<c>>)

(* A number is appended as a whole or not at all; ds is its decimal text.     *)
Padded(ds) == IF Len(ds) < width THEN Rep(fill, width - Len(ds)) \o ds ELSE ds
PaddedLen(ds) == IF Len(ds) < width THEN width ELSE Len(ds)
Number(ds) == /\ IF PaddedLen(ds) <= Room
                THEN text' = text \o Padded(ds) /\ width' = 0
                ELSE UNCHANGED <<text, width>>
           /\ UNCHANGED <<cap, fill, prec>>

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Hex(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>
Byte(b) == /\ text' = IF Room >= 2 THEN text \o Hex(b) ELSE text
           /\ UNCHANGED <<cap, width, fill, prec>>
HexAll(bs) == [i \in 1..(2 * Len(bs)) |-> Hex(bs[(i + 1) \div 2])[IF i % 2 = 1 THEN 1 ELSE 2]]
Bytes(bs) == /\ text' = text \o HexAll(Take(bs, Room \div 2))
             /\ UNCHANGED <<cap, width, fill, prec>>

(* A float: sign, decimal text ip of its integer part, fraction r / 2^k.      *)
RECURSIVE Digits(_, _, _)
Digits(r, d, p) == IF p <= 0 THEN <<>> ELSE <<48 + (10 * r) \div d>> \o Digits((10 * r) % d, d, p - 1)
FloatText(neg, ip, r, k, p) ==
  LET whole == (IF neg THEN <<45>> ELSE <<>>) \o ip
  IN IF p > 0 THEN whole \o <<46>> \o Digits(r, 2 ^ k, p) ELSE whole
Float(neg, ip, r, k) ==
  LET whole == (IF neg THEN 1 ELSE 0) + Len(ip)
  IN /\ text' = IF whole <= Room THEN text \o Take(FloatText(neg, ip, r, k, Min2(prec, cap + 1)), Room) ELSE text
     /\ UNCHANGED <<cap, width, fill, prec>>

Within == Len(text) <= cap
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
==============================================================================
