------------------------------ MODULE MCConvert ------------------------------
(* Small source fonts converted glyph by glyph, rows cut out of padded rows;  *)
(* reading the table back gives the source.                                   *)
EXTENDS Converter, TLC
CONSTANTS MaxW, MaxH, Count
VARIABLES source, done, table
vars == <<source, done, table>>
Row(w, seed) == [i \in 1..w |-> ((seed \div 2 ^ (i % 5)) + (i * seed)) % 2]
G(w, h, s) == [w |-> w, h |-> h, x |-> (s % 3) - 1, y |-> (s % 4) - 2, adv |-> w + 1, mono |-> TRUE, rows |-> [r \in 1..h |-> Row(w, s + r * 7)]]
Init == source \in [1..Count -> {G(w, h, s) : w \in 0..MaxW, h \in 0..MaxH, s \in {3, 6}}] /\ done = 0 /\ table = <<>>
Next == /\ done < Count /\ done' = done + 1 /\ UNCHANGED source
        /\ table' = Append(table, [off |-> Offset(source, done + 1), g |-> Converted(source[done + 1])])
Spec == Init /\ [][Next]_vars
Unpack(g, x, y) == LET k == y * g.w + x IN BitsOf(g.bits[(k \div 8) + 1])[(k % 8) + 1]
ReadsBack == \A i \in 1..Len(table) : LET g == table[i].g  s == source[i] IN
   /\ \A y \in 0..(s.h - 1) : \A x \in 0..(s.w - 1) : Unpack(g, x, y) = s.rows[y + 1][x + 1]
   /\ Len(g.bits) = BytesOf(s)
   /\ i > 1 => table[i].off = table[i - 1].off + Len(table[i - 1].g.bits)
==============================================================================
