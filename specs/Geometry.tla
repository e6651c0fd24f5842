------------------------------ MODULE Geometry -------------------------------
(* Points <<x, y>>, sizes <<width, height>>, rectangles <<x, y, width, height>> *)
(* and 2x2 matrices <<a, b, c, d>>.                                            *)
EXTENDS Naturals, Integers, Sequences

Add(p, s) == <<p[1] + s[1], p[2] + s[2]>>
Sub(p, s) == <<p[1] - s[1], p[2] - s[2]>>
Scale(s, k) == <<s[1] * k, s[2] * k>>
(* division towards zero *)
Quot(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
Part(s, k) == <<Quot(s[1], k), Quot(s[2], k)>>
Move(r, s) == <<r[1] + s[1], r[2] + s[2], r[3], r[4]>>
In(p, r) == p[1] >= r[1] /\ p[1] < r[1] + r[3] /\ p[2] >= r[2] /\ p[2] < r[2] + r[4]

(* the corners, said by what they are: inside, and outside one step further *)
IsCorner(p, r, dx, dy) == In(p, r) /\ ~In(<<p[1] + dx, p[2]>>, r) /\ ~In(<<p[1], p[2] + dy>>, r)
TopLeft(r) == <<r[1], r[2]>>
TopRight(r) == <<r[1] + r[3] - 1, r[2]>>
BottomLeft(r) == <<r[1], r[2] + r[4] - 1>>
BottomRight(r) == <<r[1] + r[3] - 1, r[2] + r[4] - 1>>

Apply(m, p) == <<m[1] * p[1] + m[2] * p[2], m[3] * p[1] + m[4] * p[2]>>
==============================================================================
