------------------------------- MODULE MCFrame -------------------------------
EXTENDS Frame, TLC, Json
VARIABLE act
mvars == <<w, h, d, back, drawn, color, act>>
Frames == {<<8, 1, 1>>, <<4, 1, 2>>, <<2, 2, 4>>, <<1, 3, 8>>, <<1, 3, 16>>, <<3, 1, 24>>, <<1, 3, 32>>}
C0 == <<0, 0, 0, 0>>  C1 == <<255, 255, 255, 255>>
ColorsOf(dd) == CASE dd = 1 -> {C0, <<0, 0, 0, 1>>}
                  [] dd = 2 -> {C0, <<0, 0, 0, 1>>, <<0, 0, 0, 2>>}
                  [] dd = 4 -> {C0, <<0, 0, 0, 6>>, <<0, 0, 0, 9>>}
                  [] dd = 8 -> {C0, <<0, 0, 0, 165>>, <<0, 0, 0, 90>>}
                  [] dd = 16 -> {C0, <<0, 0, 18, 52>>, <<0, 0, 255, 0>>}
                  [] dd = 24 -> {C0, <<0, 18, 52, 86>>, <<0, 0, 255, 0>>}
                  [] dd = 32 -> {C0, <<18, 52, 86, 120>>, <<255, 0, 0, 128>>}
Init == /\ \E f \in Frames : FrameInit(f[1], f[2], f[3])
        /\ back = Low(C0, d) /\ act = [a |-> "init"]
Next == \/ \E c \in ColorsOf(d) : Clear(c) /\ act' = [a |-> "clear", c |-> c]
        \/ \E c \in ColorsOf(d) \cup {C1} : SetColor(c) /\ act' = [a |-> "color", c |-> c]
        \/ \E x \in 0..(w - 1), y \in 0..(h - 1) : Draw(x, y) /\ act' = [a |-> "draw", x |-> x, y |-> y]
Spec == Init /\ [][Next]_mvars
Pic == [i \in 1..(w * h) |-> Pixel(i - 1)]
St == [w |-> w, h |-> h, d |-> d, pic |-> Pic, color |-> color]
View == St
Emit == PrintT("@T@" \o ToJson(St) \o "|" \o ToJson(act') \o "|" \o ToJson(St'))

(* reading the image back gives the picture *)
Unpack(i) == LET u == Unit(i \div PerUnit) IN
             IF d < 8 THEN <<(u[1] \div 2 ^ (8 - d * ((i % PerUnit) + 1))) % (2 ^ d)>> ELSE u
RoundTrip == \A i \in 0..(w * h - 1) : Unpack(i) = Pixel(i)
SizeRight == ImageSize = Units * (IF d < 8 THEN 1 ELSE d \div 8)
OnlyThat == [][act'.a = "draw" => \A i \in 0..(w * h - 1) : i # act'.y * w + act'.x => Pixel(i)' = Pixel(i)]_mvars
ColorKept == [][act'.a # "color" => color' = color]_mvars
Cleared == [][act'.a = "clear" => \A i \in 0..(w * h - 1) : Pixel(i)' = Low(act'.c, d)]_mvars
==============================================================================
