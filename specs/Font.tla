-------------------------------- MODULE Font ---------------------------------
(* A font: glyphs for the codes 0x20..0x7E, and in an 8-bit font also for     *)
(* 0xA0..0xFF.  A glyph is [w, h, ox, oy, adv, off, bits]: its size, offset,  *)
(* advance, where its bitmap begins in the font's and the bitmap's bytes.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

HasCode(c, last) == (c >= 32 /\ c <= 126) \/ (last = 255 /\ c >= 160 /\ c <= 255)
Count(last) == IF last = 255 THEN 191 ELSE 95
(* number of the glyph shown for a code, from 1 *)
Index(c, last) == IF ~HasCode(c, last) THEN 1
                  ELSE IF c <= 126 THEN c - 31 ELSE c - 160 + 96

Bit(byte, i) == (byte \div 2 ^ (7 - i)) % 2 = 1
(* the pixels of a glyph drawn at p *)
Dots(g, p) == {<<p[1] + g.ox + (k % g.w), p[2] + g.oy + (k \div g.w)>> :
                  k \in {i \in 0..(g.w * g.h - 1) : Bit(g.bits[i \div 8 + 1], i % 8)}}

GlyphOf(c, table, last) == table[Index(c, last)]
RECURSIVE Pen(_, _, _)      \* how far the pen has moved after the codes
Pen(text, table, last) == IF text = <<>> THEN 0 ELSE GlyphOf(Head(text), table, last).adv + Pen(Tail(text), table, last)
RECURSIVE TextDots(_, _, _, _)
TextDots(text, p, table, last) ==
  IF text = <<>> THEN {}
  ELSE LET g == GlyphOf(Head(text), table, last) IN Dots(g, p) \cup TextDots(Tail(text), <<p[1] + g.adv, p[2]>>, table, last)

(* bounds <<x, y, width, height>>: where to draw, and the room needed *)
Inside(dots, b) == \A q \in dots : q[1] >= 0 /\ q[2] >= 0 /\ q[1] < b[3] /\ q[2] < b[4]
Fits(text, b, table, last) == IF text = <<>> THEN b[3] = 0 /\ b[4] = 0
                              ELSE Inside(TextDots(text, <<b[1], b[2]>>, table, last), b)
(* bounds computed from the boxes of the glyphs *)
RECURSIVE Boxes(_, _, _, _)
Boxes(text, x, table, last) ==
  IF text = <<>> THEN {}
  ELSE LET g == GlyphOf(Head(text), table, last)
       IN {<<x + g.ox, g.oy, x + g.ox + g.w, g.oy + g.h>>} \cup Boxes(Tail(text), x + g.adv, table, last)
MinOf(S) == CHOOSE v \in S : \A u \in S : v <= u
MaxOf(S) == CHOOSE v \in S : \A u \in S : v >= u
Bounds(text, table, last) ==
  IF text = <<>> THEN <<0, 0, 0, 0>>
  ELSE LET B == Boxes(text, 0, table, last)
           l == MinOf({b[1] : b \in B})  t == MinOf({b[2] : b \in B} \cup {0})
       IN <<-l, -t, MaxOf({b[3] : b \in B}) - l, MaxOf({b[4] : b \in B}) - t>>
==============================================================================
