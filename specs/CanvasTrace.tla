----------------------------- MODULE CanvasTrace -----------------------------
(* Validates executions of the real canvas.  Mode selects what is judged:     *)
(* "clip" G01, "turn" G02, "line" G03, "rect" G04, "circle" and "arc" G05.    *)
EXTENDS Canvas, TraceBase
CONSTANT Mode
VARIABLE outline      \* the last circle outline seen, about its centre
tvars == <<w, h, rot, pic, outline, tid, l>>
TraceInit == TraceBaseInit /\ w = 0 /\ h = 0 /\ rot = 0 /\ pic = {} /\ outline = [r |-> -1, p |-> {}]

Set(q) == {q[i] : i \in DOMAIN q}
a == E.args
Quiet == E.clears = 0 /\ E.colors = 0
Size == <<E.sw, E.sh>> = SizeSeen' /\ E.r = rot'

(* the rows of a rectangle, or of its border, inside the frame, as runs *)
Clipped(y, x0, x1) == LET u == Max(x0, 0)  v == Min(x1, w - 1) IN IF u <= v THEN <<<<y, u, v - u + 1>>>> ELSE <<>>
RECURSIVE Rows(_, _, _, _, _, _)
Rows(x0, x1, y, y0, y1, border) ==
  IF y > Min(y1, h - 1) THEN <<>>
  ELSE (IF ~border \/ y \in {y0, y1} \/ x1 - x0 < 2 THEN Clipped(y, x0, x1) ELSE Clipped(y, x0, x0) \o Clipped(y, x1, x1))
       \o Rows(x0, x1, y + 1, y0, y1, border)
(* corners of a rectangle of at least 1 x 1, turned *)
RectRuns(x, y, ww, hh, border) ==
  LET p == Turn(<<x, y>>)  q == Turn(<<x + ww - 1, y + hh - 1>>)
      y0 == Min(p[2], q[2])
  IN Rows(Min(p[1], q[1]), Max(p[1], q[1]), Max(y0, 0), y0, Max(p[2], q[2]), border)

(* a line given as runs along its longer axis, end points in frame coordinates *)
RunPixel(i, k) == IF E.columns THEN <<E.runs[i][1], E.runs[i][2] + k>> ELSE <<E.runs[i][2] + k, E.runs[i][1]>>
LastOf(i) == RunPixel(i, E.runs[i][3] - 1)
Sorted(c, lo) == \A i \in DOMAIN E.runs :
   \* some order of the runs tiles the longer axis: the run starting at lo, or right after another one
   LET s == RunPixel(i, 0)[c] IN s = lo \/ \E j \in {i - 1, i + 1} \cap DOMAIN E.runs : LastOf(j)[c] = s - 1
LineRight(p, q) ==
  LET c == IF E.columns THEN 2 ELSE 1
      lo == Min(p[c], q[c])  hi == Max(p[c], q[c])
      first == IF p[c] <= q[c] THEN p ELSE q
      final == IF p[c] <= q[c] THEN q ELSE p
      N == Len(E.runs)
  IN /\ E.n = hi - lo + 1 /\ hi - lo = Length(p, q)
     /\ N >= 1 /\ \A i \in DOMAIN E.runs : E.runs[i][3] >= 1
     /\ {RunPixel(1, 0), RunPixel(N, 0)} \cap {first} # {}
     /\ {LastOf(1), LastOf(N)} \cap {final} # {}
     /\ Sorted(c, lo)
     /\ \A i \in DOMAIN E.runs : Off2(RunPixel(i, 0), p, q) <= Length(p, q) /\ Off2(LastOf(i), p, q) <= Length(p, q)

RunSet(o) == UNION {{<<E.runs[i][2] + k - o[1], E.runs[i][1] - o[2]>> : k \in 0..(E.runs[i][3] - 1)} : i \in DOMAIN E.runs}
FilledRows(P, r, o) == [k \in 1..(2 * r + 1) |->
   LET y == k - 1 - r  row == RowOf(P, y) IN <<y + o[2], SetMin(row) + o[1], SetMax(row) - SetMin(row) + 1>>]

(* the part of a circle of radius r inside the frame, for circles too large to be judged as a whole *)
Sgn(z) == IF z < 0 THEN -1 ELSE 1
Square(p) == p[1] * p[1] + p[2] * p[2]
Cells(o) == {<<x - o[1], y - o[2]>> : x \in 0..(w - 1), y \in 0..(h - 1)}     \* the frame's pixels, about the centre
GoesOn(P, F, p, dx, dy) ==
  LET c == {<<p[1] + dx, p[2]>>, <<p[1], p[2] + dy>>, <<p[1] + dx, p[2] + dy>>} IN c \subseteq F => c \cap P # {}
(* the ideal circle crosses between p and the next pixel outwards along axis c *)
Crosses(p, r, c) == LET out == [p EXCEPT ![c] = @ + Sgn(@)] IN Square(p) <= r * r /\ Square(out) > r * r
ArcRight(P, F, r) ==
  /\ \A p \in P : p \in F /\ Square(p) < (r + 1) * (r + 1) /\ Square(p) > (r - 1) * (r - 1)
  /\ \A p \in P : /\ p[2] # Sgn(p[2]) * r => GoesOn(P, F, p, -Sgn(p[1]), Sgn(p[2]))
                  /\ p[1] # Sgn(p[1]) * r => GoesOn(P, F, p, Sgn(p[1]), -Sgn(p[2]))
  (* and it is there wherever the circle passes through the frame, off its edges *)
  /\ \A p \in F, c \in {1, 2} :
       LET near == {[p EXCEPT ![c] = @ + k] : k \in -2..2} IN
       /\ Crosses(p, r, c) /\ near \subseteq F /\ p[3 - c] * p[3 - c] <= p[c] * p[c] => near \cap P # {}
(* filled: the outline, and of each row what lies inwards of it *)
ArcFilled(P, F, Q, r) ==
  Q = P \cup {p \in F : \/ \E k \in P : k[2] = p[2] /\ k[1] * k[1] >= p[1] * p[1]
                        \/ Square(p) < r * r /\ ~\E k \in P : k[2] = p[2] /\ Sgn(k[1]) = Sgn(p[1])}

(* a rectangle turned, by its corners (for those too large to be listed) *)
TurnedRect(v) ==
  LET p == Turn(<<v[1], v[2]>>)  q == Turn(<<v[1] + v[3] - 1, v[2] + v[4] - 1>>)
      x0 == Min(p[1], q[1])  y0 == Min(p[2], q[2])
  IN v[5] = x0 /\ v[6] = y0 /\ v[7] = (Max(p[1], q[1]) - x0) + 1 /\ v[8] = (Max(p[2], q[2]) - y0) + 1

Judge ==
  CASE Mode = "clip" ->
         Set(E.pix) = {<<p[1] - E.m, p[2] - E.m>> : p \in Set(E.big)} /\ \A p \in Set(E.pix) : InFrame(p)
    [] Mode = "turn" /\ E.op = "L" ->
         /\ {p \in {Turn(<<a[1], a[2]>>), Turn(<<a[3], a[4]>>)} : InFrame(p)} \subseteq Set(E.pix)
         /\ a[1] = a[3] \/ a[2] = a[4] => Set(E.pix) = {Turn(p) : p \in Set(E.flat)}
    [] Mode = "turn" /\ E.op = "P" -> Set(E.pix) = {p \in {Turn(<<a[1], a[2]>>)} : InFrame(p)}
    [] Mode = "turn" /\ E.op \notin {"L", "P"} -> Set(E.pix) = {Turn(p) : p \in Set(E.flat)}
    [] Mode = "line" -> E.same /\ LineRight(Turn(<<a[1], a[2]>>), Turn(<<a[3], a[4]>>))
    [] Mode = "rect" -> E.runs = IF a[3] = 0 \/ a[4] = 0 THEN <<>> ELSE RectRuns(a[1], a[2], a[3], a[4], E.op = "R")
    [] Mode = "circle" /\ a[4] = 0 -> LET P == RunSet(Turn(<<a[1], a[2]>>)) IN IsCircle(P, a[3])
    [] Mode = "circle" /\ a[4] = 1 -> outline.r = a[3] /\ E.runs = FilledRows(outline.p, a[3], Turn(<<a[1], a[2]>>))
    [] Mode = "arc" /\ a[4] = 0 -> LET o == Turn(<<a[1], a[2]>>) IN ArcRight(RunSet(o), Cells(o), a[3])
    [] Mode = "arc" /\ a[4] = 1 -> LET o == Turn(<<a[1], a[2]>>) IN
         outline.r = a[3] /\ ArcFilled(outline.p, Cells(o), RunSet(o), a[3])
    [] Mode = "walk" -> TRUE

Fig == CASE E.op = "P" -> PixelFig(a[1], a[2])
         [] E.op = "R" -> RectFig(a[1], a[2], a[3], a[4])
         [] E.op = "F" -> FilledFig(a[1], a[2], a[3], a[4])

NewEv == /\ IsEvent("New") /\ E.r0 = 0
         /\ w' = E.w0 /\ h' = E.h0 /\ rot' = E.r /\ pic' = {} /\ UNCHANGED outline
         /\ Size
OpEv == /\ IsEvent("Op")
        /\ CASE E.op = "o" -> SetRotation(a[1]) /\ Quiet /\ E.n = 0 /\ UNCHANGED outline
             [] E.op = "x" -> Wipe /\ E.clears = 1 /\ E.colors = 0 /\ E.n = 0 /\ UNCHANGED outline
             [] E.op = "k" -> UNCHANGED cvars /\ E.clears = 0 /\ E.colors = 1 /\ E.n = 0 /\ UNCHANGED outline
             [] E.op = "V" -> /\ UNCHANGED cvars /\ UNCHANGED outline /\ E.n = 0
                              /\ IF a[3] > 60 \/ a[4] > 60 THEN TurnedRect(a)
                                 ELSE FilledFig(a[5], a[6], a[7], a[8]) = {Turn(p) : p \in FilledFig(a[1], a[2], a[3], a[4])}
             [] OTHER -> /\ Quiet /\ Judge
                         /\ IF Mode = "walk" THEN DrawFig(Fig) ELSE UNCHANGED cvars
                         /\ IF Mode \in {"circle", "arc"} /\ a[4] = 0
                            THEN outline' = [r |-> a[3], p |-> RunSet(Turn(<<a[1], a[2]>>))] ELSE UNCHANGED outline
        /\ Size
        /\ \E lit \in {IF Mode = "walk" THEN Set(E.lit) ELSE {}} : Mode = "walk" => lit = pic'
TraceNext == NewEv \/ OpEv \/ (TraceDone /\ UNCHANGED <<w, h, rot, pic, outline>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
