---------------------------- MODULE GeometryTrace ----------------------------
(* Validates results of the real geometry classes; every result is judged on  *)
(* its own.                                                                   *)
EXTENDS Geometry, TraceBase
tvars == <<tid, l>>
TraceInit == TraceBaseInit
a == E.a
p == <<a[1], a[2]>>
s == <<a[3], a[4]>>
r == a
SizeEv == /\ IsEvent("Size") /\ E.add = Add(p, s) /\ E.sub = Sub(p, s) /\ E.addsub = p /\ E.subadd = p
PointEv == /\ IsEvent("Point") /\ E.add = Add(p, s) /\ E.addto = Add(p, s)
           /\ E.eq = (p = s) /\ E.ne = (p # s) /\ E.self
ScaleEv == /\ IsEvent("Scale") /\ E.mul = Scale(p, a[3]) /\ ("div" \in DOMAIN E => E.div = Part(p, a[3]))
RectEv == /\ IsEvent("Rect")
          /\ E.tl = TopLeft(r)
          /\ (E.corners => /\ E.tr = TopRight(r) /\ IsCorner(E.tr, r, 1, -1)
                           /\ E.bl = BottomLeft(r) /\ IsCorner(E.bl, r, -1, 1)
                           /\ E.br = BottomRight(r) /\ IsCorner(E.br, r, 1, 1))
          /\ E.back = r /\ E.size = <<r[3], r[4]>>
MoveEv == /\ IsEvent("Move") /\ E.moved = Move(r, <<a[5], a[6]>>) /\ E.movedto = Move(r, <<a[5], a[6]>>)
MatrixEv == /\ IsEvent("Matrix") /\ E.v = Apply(a, <<a[5], a[6]>>)
TraceNext == SizeEv \/ PointEv \/ ScaleEv \/ RectEv \/ MoveEv \/ MatrixEv \/ TraceDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
