------------------------------ MODULE FontTrace ------------------------------
(* Validates executions of the real fonts.  Event Font carries the table the  *)
(* font was made from.                                                        *)
EXTENDS Font, TraceBase
VARIABLES table, last, total, w, h
tvars == <<table, last, total, w, h, tid, l>>
fvars == <<table, last, total, w, h>>
TraceInit == TraceBaseInit /\ table = <<>> /\ last = 0 /\ total = 0 /\ w = 0 /\ h = 0
Clip(S) == {q \in S : q[1] >= 0 /\ q[2] >= 0 /\ q[1] < w /\ q[2] < h}
Set(q) == {q[i] : i \in DOMAIN q}
Glyph(c) == GlyphOf(c, table, last)
EndOf(i) == IF i = Len(table) THEN total ELSE table[i + 1].off

FontEv == /\ IsEvent("Font")
          /\ table' = E.table /\ last' = E.last /\ total' = E.total /\ w' = E.w /\ h' = E.h
          /\ Len(E.table) = Count(E.last)
          (* the table is one: bitmaps one after the other, perhaps with bytes between them *)
          /\ E.table[1].off = 0
          /\ \A i \in 1..Len(E.table) : LET g == E.table[i] IN
               /\ Len(g.bits) * 8 >= g.w * g.h /\ Len(g.bits) = (g.w * g.h + 7) \div 8
               /\ g.off + Len(g.bits) <= (IF i = Len(E.table) THEN E.total ELSE E.table[i + 1].off)
GlyphEv == /\ IsEvent("Glyph")
           /\ LET i == Index(E.c, last)  g == table[i] IN
              /\ E.w = g.w /\ E.h = g.h /\ E.ox = g.ox /\ E.oy = g.oy /\ E.adv = g.adv
              /\ E.off = g.off /\ E.len = EndOf(i) - g.off /\ E.bytes = g.bits
           /\ UNCHANGED fvars
CharEv == /\ IsEvent("Char")
          /\ Set(E.pix) = Clip(Dots(Glyph(E.c), <<E.x, E.y>>)) /\ E.ret = Glyph(E.c).adv /\ E.other = 0
          /\ UNCHANGED fvars
TextEv == /\ IsEvent("Text")
          /\ Set(E.pix) = Clip(TextDots(E.text, <<E.x, E.y>>, table, last)) /\ E.other = 0
          /\ UNCHANGED fvars
BoundsEv == /\ IsEvent("Bounds")
            /\ IF E.text = <<>> THEN E.b[3] = 0 /\ E.b[4] = 0 ELSE Inside(Set(E.pix), E.b)
            /\ UNCHANGED fvars
TraceNext == FontEv \/ GlyphEv \/ CharEv \/ TextEv \/ BoundsEv \/ (TraceDone /\ UNCHANGED fvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
