----------------------------- MODULE MCGeometry ------------------------------
EXTENDS Geometry, TLC
CONSTANT N
VARIABLES p, s, r, m
K == -N..N
Init == /\ p \in K \X K /\ s \in K \X K
        /\ \/ m \in (-1..1) \X (-1..1) \X (-1..1) \X (-1..1) /\ r = <<0, 0, 1, 1>>
           \/ m = <<1, 0, 0, 1>> /\ r \in (-1..1) \X (-1..1) \X (1..3) \X (1..3)
Next == UNCHANGED <<p, s, r, m>>
Spec == Init /\ [][Next]_<<p, s, r, m>>
Neutral == Sub(Add(p, s), s) = p /\ Add(Sub(p, s), s) = p
Linear == Apply(m, Add(p, s)) = Add(Apply(m, p), Apply(m, s)) /\ Apply(m, Scale(p, 2)) = Scale(Apply(m, p), 2)
Corners == /\ IsCorner(TopLeft(r), r, -1, -1) /\ IsCorner(TopRight(r), r, 1, -1)
           /\ IsCorner(BottomLeft(r), r, -1, 1) /\ IsCorner(BottomRight(r), r, 1, 1)
Moves == LET q == Move(r, s) IN TopRight(q) = Add(TopRight(r), s) /\ BottomRight(q) = Add(BottomRight(r), s) /\ q[3] = r[3] /\ q[4] = r[4]
ScaleBack == \A k \in {-2, -1, 1, 2} : Part(Scale(s, k), k) = s
==============================================================================
