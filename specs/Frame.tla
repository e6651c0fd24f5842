-------------------------------- MODULE Frame --------------------------------
(* A frame of w x h pixels of d bits.  Colours are given by four bytes, most  *)
(* significant first; a pixel holds the low d bits.  A picture is a           *)
(* background colour and the pixels that differ from it or were drawn.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES w, h, d,
          back,     \* colour of the last clear
          drawn,    \* [pixel number -> colour] of the pixels drawn since
          color     \* current drawing colour
fvars == <<w, h, d, back, drawn, color>>

Depths == {1, 2, 4, 8, 16, 24, 32}
(* the low bits of a colour, as bytes (one number for depths below 8) *)
Low(c, dd) == IF dd < 8 THEN <<c[4] % (2 ^ dd)>> ELSE SubSeq(c, 5 - dd \div 8, 4)
AllOnes(dd) == Low(<<255, 255, 255, 255>>, dd)

FrameInit(ww, hh, dd) == /\ w = ww /\ h = hh /\ d = dd /\ color = AllOnes(dd)
                         /\ drawn = <<>>

SetColor(c) == color' = Low(c, d) /\ UNCHANGED <<w, h, d, back, drawn>>
Clear(c) == back' = Low(c, d) /\ drawn' = <<>> /\ UNCHANGED <<w, h, d, color>>
Put(i, c) == drawn' = [j \in DOMAIN drawn \cup {i} |-> IF j = i THEN c ELSE drawn[j]]
Draw(x, y) == Put(y * w + x, color) /\ UNCHANGED <<w, h, d, back, color>>
DrawColor(x, y, c) == Put(y * w + x, Low(c, d)) /\ UNCHANGED <<w, h, d, back, color>>

Pixel(i) == IF i \in DOMAIN drawn THEN drawn[i] ELSE back

(* The image: a unit is a byte below 8 bits per pixel, else a pixel.          *)
PerUnit == IF d < 8 THEN 8 \div d ELSE 1
Units == (w * h) \div PerUnit
RECURSIVE PackByte(_, _)
PackByte(u, k) == IF k = PerUnit THEN 0
                  ELSE Pixel(u * PerUnit + k)[1] * 2 ^ (8 - d * (k + 1)) + PackByte(u, k + 1)
Unit(u) == IF d < 8 THEN <<PackByte(u, 0)>> ELSE Pixel(u)
RECURSIVE BackByte(_)
BackByte(k) == IF k = PerUnit THEN 0 ELSE back[1] * 2 ^ (8 - d * (k + 1)) + BackByte(k + 1)
BackUnit == IF d < 8 THEN <<BackByte(0)>> ELSE back
ImageSize == (w * h * d) \div 8
==============================================================================
