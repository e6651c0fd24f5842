------------------------------ MODULE MCCanvas -------------------------------
EXTENDS Canvas, TLC, Json
VARIABLE act
mvars == <<w, h, rot, pic, act>>
CONSTANT Frames
FramesQ == {<<3, 2>>}
FramesT == {<<3, 2>>, <<1, 4>>, <<3, 3>>}
Xs == -1..3
Rects == {<<0, 0, 3, 2>>, <<0, 0, 2, 3>>, <<-1, -1, 2, 2>>, <<1, 0, 1, 1>>, <<0, 1, 3, 1>>, <<1, -1, 1, 4>>, <<-1, -1, 5, 5>>, <<2, 1, 3, 3>>,
          <<0, 0, 0, 2>>, <<1, 1, 2, 0>>, <<-3, 0, 2, 2>>, <<0, 5, 2, 2>>}
Init == (\E f \in Frames : CanvasInit(f[1], f[2])) /\ act = [a |-> "init"]
Next == \/ \E r \in 0..3 : r # rot /\ SetRotation(r) /\ act' = [a |-> "rot", r |-> r]
        \/ pic # {} /\ Wipe /\ act' = [a |-> "wipe"]
        \/ \E x \in Xs, y \in Xs : DrawFig(PixelFig(x, y)) /\ act' = [a |-> "pixel", v |-> <<x, y>>]
        \/ \E q \in Rects : DrawFig(FilledFig(q[1], q[2], q[3], q[4])) /\ act' = [a |-> "filled", v |-> q]
        \/ \E q \in Rects : q[3] > 0 /\ q[4] > 0 /\ DrawFig(RectFig(q[1], q[2], q[3], q[4])) /\ act' = [a |-> "rect", v |-> q]
Spec == Init /\ [][Next]_mvars
St == [w |-> w, h |-> h, rot |-> rot, pic |-> pic]
View == St
Emit == PrintT("@T@" \o ToJson(St) \o "|" \o ToJson(act') \o "|" \o ToJson(St'))

Inside == \A p \in pic : InFrame(p)
(* turning is one to one onto the frame, and four quarter turns are none *)
TurnsOnto == {Turn(p) : p \in (0..(SizeSeen[1] - 1)) \X (0..(SizeSeen[2] - 1))} = (0..(w - 1)) \X (0..(h - 1))
RotationKeeps == [][act'.a = "rot" => pic' = pic]_mvars
Grows == [][act'.a \in {"pixel", "filled", "rect"} => pic \subseteq pic']_mvars
(* the area of a larger frame shows the same *)
TwinRight == LET m == 3 IN \A q \in Rects :
   LET f == RectFig(q[1], q[2], q[3], q[4])
       big == {TurnIn(<<p[1] + m, p[2] + m>>, rot, w + 2 * m, h + 2 * m) : p \in f}
   IN Visible(f) = {p \in {<<b[1] - m, b[2] - m>> : b \in big} : InFrame(p)}
==============================================================================
