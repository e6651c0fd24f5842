------------------------------ MODULE TraceBase ------------------------------
(* Common part of every trace specification.  A file holds a list of traces,  *)
(* each a list of events recorded from the real code.  A trace specification  *)
(* steps through every trace, one event per step; it has no step for an event *)
(* that the specification does not allow, so TLC reports a deadlock exactly   *)
(* when a recorded execution is not a behaviour of the specification.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES tid, l

Traces == JsonDeserialize(IOEnv.MBV_TRACES)

TraceBaseInit == tid \in 1..Len(Traces) /\ l = 1

E == Traces[tid][l]
IsEvent(n) == /\ l <= Len(Traces[tid])
              /\ Traces[tid][l].ev = n
              /\ l' = l + 1
              /\ tid' = tid
TraceDone == l > Len(Traces[tid]) /\ UNCHANGED <<tid, l>>
==============================================================================
