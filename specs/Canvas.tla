------------------------------- MODULE Canvas --------------------------------
(* A canvas on a frame of w x h pixels, with a rotation.  Figures are sets of *)
(* logical pixels (the unbounded plane as the user sees it); what is drawn is *)
(* the figure, turned, inside the frame.                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES w, h,    \* the frame
          rot,     \* 0..3: quarter turns
          pic      \* the lit pixels of the frame
cvars == <<w, h, rot, pic>>

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* where the logical pixel p lies in the frame *)
TurnIn(p, r, ww, hh) == CASE r = 0 -> p
                          [] r = 1 -> <<ww - 1 - p[2], p[1]>>
                          [] r = 2 -> <<ww - 1 - p[1], hh - 1 - p[2]>>
                          [] r = 3 -> <<p[2], hh - 1 - p[1]>>
Turn(p) == TurnIn(p, rot, w, h)
InFrame(p) == p[1] >= 0 /\ p[1] < w /\ p[2] >= 0 /\ p[2] < h
Visible(fig) == {q \in {Turn(p) : p \in fig} : InFrame(q)}
SizeSeen == IF rot \in {1, 3} THEN <<h, w>> ELSE <<w, h>>

(* figures *)
PixelFig(x, y) == {<<x, y>>}
FilledFig(x, y, ww, hh) == (x..(x + ww - 1)) \X (y..(y + hh - 1))
RectFig(x, y, ww, hh) == {p \in FilledFig(x, y, ww, hh) : p[1] \in {x, x + ww - 1} \/ p[2] \in {y, y + hh - 1}}

(* which sets of pixels are lines from a to b *)
LongX(a, b) == Abs(b[1] - a[1]) >= Abs(b[2] - a[2])
(* twice the distance from the ideal line along the short axis, times the length *)
Off2(p, a, b) == IF LongX(a, b)
                 THEN 2 * Abs((p[2] - a[2]) * (b[1] - a[1]) - (p[1] - a[1]) * (b[2] - a[2]))
                 ELSE 2 * Abs((p[1] - a[1]) * (b[2] - a[2]) - (p[2] - a[2]) * (b[1] - a[1]))
Length(a, b) == Max(Abs(b[1] - a[1]), Abs(b[2] - a[2]))
IsLine(P, a, b) ==
  /\ a \in P /\ b \in P
  /\ Cardinality(P) = Length(a, b) + 1
  /\ LET c == IF LongX(a, b) THEN 1 ELSE 2 IN
     {p[c] : p \in P} = Min(a[c], b[c])..Max(a[c], b[c])
  /\ \A p \in P : Off2(p, a, b) <= Length(a, b)

(* which sets of pixels are circles of radius r about the origin *)
Neighbour(P, p, dx, dy) == \E i \in {0, dx}, j \in {0, dy} : <<i, j>> # <<0, 0>> /\ <<p[1] + i, p[2] + j>> \in P
Mirror(P) == \A p \in P : <<-p[1], p[2]>> \in P /\ <<p[1], -p[2]>> \in P
IsCircle(P, r) ==
  /\ Mirror(P)
  /\ {p \in P : p[2] = 0} \subseteq {<<r, 0>>, <<-r, 0>>}         \* reaches r, and only r, on the axes
  /\ {p \in P : p[1] = 0} \subseteq {<<0, r>>, <<0, -r>>}
  /\ <<r, 0>> \in P /\ <<0, r>> \in P
  /\ \A p \in P : LET q == p[1] * p[1] + p[2] * p[2] IN
        /\ q < (r + 1) * (r + 1)
        /\ r >= 1 => q > (r - 1) * (r - 1)
  (* closed: from every pixel of a quadrant the outline goes on to both its ends *)
  /\ \A p \in P : p[1] >= 0 /\ p[2] >= 0 =>
        /\ p # <<0, r>> => Neighbour(P, p, -1, 1)
        /\ p # <<r, 0>> => Neighbour(P, p, 1, -1)
(* with the pixels it encloses: everything between two outline pixels of a row *)
RowOf(P, y) == {p[1] : p \in {q \in P : q[2] = y}}
SetMax(S) == CHOOSE x \in S : \A z \in S : z <= x
SetMin(S) == CHOOSE x \in S : \A z \in S : z >= x
Filled(P, r) == UNION {(SetMin(RowOf(P, y))..SetMax(RowOf(P, y))) \X {y} : y \in -r..r}
Shift(P, c) == {<<p[1] + c[1], p[2] + c[2]>> : p \in P}

(* the state machine *)
CanvasInit(ww, hh) == w = ww /\ h = hh /\ rot = 0 /\ pic = {}
SetRotation(r) == rot' = r /\ UNCHANGED <<w, h, pic>>
Wipe == pic' = {} /\ UNCHANGED <<w, h, rot>>
DrawFig(fig) == pic' = pic \cup Visible(fig) /\ UNCHANGED <<w, h, rot>>
==============================================================================
