----------------------------- MODULE ViewsTrace ------------------------------
(* Validates executions of the real views.  Every event shows the resulting   *)
(* view through every accessor.  Offsets and counts are logged cut to 10^9,   *)
(* which is more than any view of the traces holds.                           *)
EXTENDS Views, TraceBase
tvars == <<base, off, len, tid, l>>

TraceInit == TraceBaseInit /\ base = <<>> /\ off = 0 /\ len = 0

Shows ==
  LET es == Elems' IN
  /\ E.size = len' /\ E.bytes_size = E.width * len' /\ E.empty = (len' = 0)
  /\ (len' > 0 => E.off = off')
  /\ E.iter = es /\ E.index = es /\ E.citer = es /\ E.constview = es
  /\ E.riter = Reverse(es) /\ E.criter = Reverse(es)
  /\ (len' > 0 => E.front = es[1] /\ E.back = es[len'])
  /\ E.as_bytes = Flatten(es) /\ E.as_wbytes = Flatten(es)
  /\ (E.isChar => E.sv = Flatten(es))

NewEv == IsEvent("New") /\ base' = E.elems /\ off' = 0 /\ len' = Len(E.elems) /\ Shows
(* views over bases too large to show: where in memory each accessor puts the elements, as offset and length *)
(* in bytes; the elements themselves don't matter                                                            *)
Lies == /\ E.size = len' /\ E.bytes_size = E.width * len' /\ E.empty = (len' = 0)
        /\ \A i \in 1..Len(E.places) : E.places[i] = IF len' = 0 THEN <<0, 0>> ELSE <<E.width * off', E.width * len'>>
BigEv == IsEvent("Big") /\ base' = [i \in 1..E.n |-> 0] /\ off' = 0 /\ len' = E.n /\ Lies

OpEv == /\ IsEvent("Op") \/ IsEvent("BigOp")
        /\ CASE E.op = "first" -> First(E.n)
             [] E.op = "last" -> Last(E.n)
             [] E.op = "rest" -> Rest(E.o)
             [] E.op = "mid" -> Middle(E.o, E.n)
             [] E.op = "whole" -> Whole
        /\ IF E.ev = "BigOp" THEN Lies ELSE Shows
TraceNext == NewEv \/ BigEv \/ OpEv \/ (TraceDone /\ UNCHANGED vvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
