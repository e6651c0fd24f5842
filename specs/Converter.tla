------------------------------ MODULE Converter ------------------------------
(* The pieces of the font converter: packing bits, recognising characters     *)
(* byte by byte, and turning a source font into the library's font table.     *)
EXTENDS Naturals, Integers, Sequences

(* ---- bits: what has been written so far, as bytes and up to 7 more bits --- *)
ByteOf(bits) ==   \* 8 bits (0/1), most significant first
  bits[1] * 128 + bits[2] * 64 + bits[3] * 32 + bits[4] * 16 + bits[5] * 8 + bits[6] * 4 + bits[7] * 2 + bits[8]
BitsOf(byte) == [i \in 1..8 |-> (byte \div 2 ^ (8 - i)) % 2]
(* bytes ready, and bits left over, of a run of up to 15 bits *)
Ready(bits) == IF Len(bits) < 8 THEN <<>> ELSE <<ByteOf(SubSeq(bits, 1, 8))>>
Left(bits) == IF Len(bits) < 8 THEN bits ELSE SubSeq(bits, 9, Len(bits))
Padded(bits) == IF bits = <<>> THEN <<>> ELSE <<ByteOf([i \in 1..8 |-> IF i <= Len(bits) THEN bits[i] ELSE 0])>>
PackBits(bits) == [k \in 1..((Len(bits) + 7) \div 8) |->
                    ByteOf([i \in 1..8 |-> IF 8 * k - 8 + i <= Len(bits) THEN bits[8 * k - 8 + i] ELSE 0])]

(* ---- UTF-8 ---------------------------------------------------------------- *)
Utf8(cp) == IF cp < 128 THEN <<cp>>
            ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
            ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
            ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

(* ---- fonts ---------------------------------------------------------------- *)
(* A source glyph is [w, h, x, y, adv, rows, mono]: the size of its box, the offset  *)
(* of the box's lower left corner from the origin, the advance and the rows    *)
(* of the bitmap, each a string of bits from the left, and whether it is in    *)
(* black and white (a bitmap font may be grey).                                *)
AllBits(g) == [k \in 1..(g.w * g.h) |-> g.rows[((k - 1) \div g.w) + 1][((k - 1) % g.w) + 1]]
Converted(g) == [w |-> g.w, h |-> g.h, ox |-> g.x, oy |-> 1 - (g.y + g.h), adv |-> g.adv, bits |-> PackBits(AllBits(g))]
Fits(g) == g.mono /\ g.w <= 255 /\ g.h <= 255 /\ g.adv <= 255 /\ g.x >= -128 /\ g.x <= 127 /\ 1 - (g.y + g.h) >= -128 /\ 1 - (g.y + g.h) <= 127
BytesOf(g) == (g.w * g.h + 7) \div 8
RECURSIVE Offset(_, _)
Offset(source, i) == IF i = 1 THEN 0 ELSE Offset(source, i - 1) + BytesOf(source[i - 1])
Representable(source) == /\ \A i \in 1..Len(source) : Fits(source[i])
                         /\ Offset(source, Len(source)) <= 65535
==============================================================================
