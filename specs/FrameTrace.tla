----------------------------- MODULE FrameTrace ------------------------------
(* Validates executions of the real frame buffers.  Images are logged as runs *)
(* [count, unit] of equal units.                                              *)
EXTENDS Frame, TraceBase
tvars == <<w, h, d, back, drawn, color, tid, l>>

TraceInit == TraceBaseInit /\ w = 0 /\ h = 0 /\ d = 1 /\ back = <<0>> /\ drawn = <<>> /\ color = <<0>>

Dims == E.w = w' /\ E.h = h' /\ E.isize = ImageSize' /\ E.cisize = ImageSize' /\ E.sameimage

RECURSIVE RunsOk(_, _, _)
RunsOk(runs, i, pos) ==
  IF i > Len(runs) THEN pos = Units
  ELSE LET n == runs[i][1]  v == runs[i][2]
           dirty == {j \div PerUnit : j \in DOMAIN drawn}
       IN /\ IF v = BackUnit THEN \A u \in dirty : (u >= pos /\ u < pos + n) => Unit(u) = v
             ELSE n <= Cardinality(dirty) /\ \A u \in pos..(pos + n - 1) : u \in dirty /\ Unit(u) = v
          /\ RunsOk(runs, i + 1, pos + n)

NewEv == /\ IsEvent("New") /\ w' = E.w0 /\ h' = E.h0 /\ d' = E.d0
         /\ back' = AllOnes(E.d0) /\ drawn' = <<>> /\ color' = AllOnes(E.d0)
         /\ Dims
OpEv == /\ IsEvent("Op")
        /\ CASE E.op = "memset" -> back' = E.unit /\ drawn' = <<>> /\ UNCHANGED <<w, h, d, color>>
             [] E.op = "clear" -> Clear(E.c)
             [] E.op = "color" -> SetColor(E.c)
             [] E.op = "draw" -> Draw(E.x, E.y)
             [] E.op = "drawc" -> DrawColor(E.x, E.y, E.c)
        /\ Dims
        /\ \E runs \in {E.runs} : RunsOk(runs, 1, 0)'
TraceNext == NewEv \/ OpEv \/ (TraceDone /\ UNCHANGED fvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
