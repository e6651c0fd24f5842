--------------------------- MODULE ConverterTrace ----------------------------
(* Validates executions of the real bit packer, character converter and font  *)
(* converter.                                                                 *)
EXTENDS Converter, TraceBase
VARIABLES pend,      \* bits written but not yet put out
          source,    \* the source font's glyphs, in the order of the codes
          last,      \* the last code
          height,    \* its line height
          offs       \* where each glyph's bitmap belongs
tvars == <<pend, source, last, height, offs, tid, l>>
cvars == <<pend, source, last, height, offs>>
TraceInit == TraceBaseInit /\ pend = <<>> /\ source = <<>> /\ last = 0 /\ height = 0 /\ offs = <<>>

(* ---- bits *)
BitEv == /\ IsEvent("Bit") /\ LET b == Append(pend, E.v) IN E.out = Ready(b) /\ pend' = Left(b)
         /\ UNCHANGED <<source, last, height, offs>>
ByteEv == /\ IsEvent("Byte") /\ LET b == pend \o BitsOf(E.v) IN E.out = Ready(b) /\ pend' = Left(b)
          /\ UNCHANGED <<source, last, height, offs>>
FlushEv == /\ IsEvent("Flush") /\ E.out = Padded(pend) /\ pend' = <<>> /\ UNCHANGED <<source, last, height, offs>>

(* ---- characters: fed byte by byte *)
Le4(cp) == <<cp % 256, (cp \div 256) % 256, cp \div 65536, 0>>
CharEv == /\ IsEvent("Char")
          /\ LET n == Len(E.bytes) IN
             /\ E.utf8 => E.bytes = Utf8(E.cp)
             /\ Len(E.raw) = n /\ Len(E.text) = n /\ Len(E.ucs) = n
             /\ \A i \in 1..(n - 1) : E.raw[i] = 0 /\ E.text[i] = <<>> /\ E.ucs[i] = <<>>
             /\ E.raw[n] = E.cp /\ E.text[n] = Utf8(E.cp) /\ E.ucs[n] = Le4(E.cp)
          /\ UNCHANGED cvars

(* a byte that is part of no character ends what was begun and yields nothing *)
BrokenEv == /\ IsEvent("Broken")
            /\ LET n == Len(E.bytes) IN
               /\ Len(E.raw) = n /\ Len(E.text) = n /\ Len(E.ucs) = n
               /\ \A i \in 1..n : E.raw[i] = 0 /\ E.text[i] = <<>> /\ E.ucs[i] = <<>>
            /\ UNCHANGED cvars

(* ---- fonts *)
HasCode(c) == (c >= 32 /\ c <= 126) \/ (last = 255 /\ c >= 160 /\ c <= 255)
Count == IF last = 255 THEN 191 ELSE 95
Index(c) == IF ~HasCode(c) THEN 1 ELSE IF c <= 126 THEN c - 31 ELSE c - 160 + 96
RECURSIVE Offsets(_, _, _)
Offsets(s, i, o) == IF i > Len(s) THEN <<>> ELSE <<o>> \o Offsets(s, i + 1, o + BytesOf(s[i]))
SourceEv == /\ IsEvent("Source") /\ source' = E.glyphs /\ last' = E.last /\ height' = E.height /\ offs' = Offsets(E.glyphs, 1, 0)
            /\ Len(E.glyphs) = (IF E.last = 255 THEN 191 ELSE 95)
            /\ UNCHANGED pend
(* only a header records the line height *)
Fitting(header) == (\A i \in 1..Len(source) : Fits(source[i])) /\ offs[Len(offs)] <= 65535 /\ (header => height \in 0..255)
Refused == IsEvent("Refused") /\ ~Fitting(E.header) /\ UNCHANGED cvars
SameGlyph(g, s, i) == LET c == Converted(s) IN
  /\ g.w = c.w /\ g.h = c.h /\ g.ox = c.ox /\ g.oy = c.oy /\ g.adv = c.adv /\ g.bits = c.bits /\ g.off = offs[i]
(* what is in the table, and what the font class finds for every code 0..255 *)
Loaded == /\ IsEvent("Loaded") /\ Fitting(E.header) /\ (E.header => E.height = height)
          /\ E.first = 32 /\ E.last = last
          /\ Len(E.table) = Count /\ E.total = offs[Count] + BytesOf(source[Count])
          /\ \A i \in 1..Count : SameGlyph(E.table[i], source[i], i)
          /\ \A c \in 0..255 : LET f == E.found[c + 1]  i == Index(c)  g == E.table[i] IN
                f = <<g.off, BytesOf(source[i]), g.w, g.h, g.ox, g.oy, g.adv>>
          /\ UNCHANGED cvars
TraceNext == BitEv \/ ByteEv \/ FlushEv \/ CharEv \/ BrokenEv \/ SourceEv \/ Refused \/ Loaded \/ (TraceDone /\ UNCHANGED cvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
