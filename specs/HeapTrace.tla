------------------------------ MODULE HeapTrace ------------------------------
(* Validates executions of the real code: every allocation is recorded with   *)
(* the owners of the calls active at the time.                                *)
EXTENDS Heap, TraceBase
tvars == <<stack, held, tid, l>>
TraceInit == TraceBaseInit /\ HeapInit
(* the calls and returns up to the allocation, and the allocation *)
AllocEv == /\ IsEvent("Alloc")
           /\ \E s \in {E.at} : MayAllocate(s) /\ stack' = s /\ held' = held \cup {Responsible(s)}
CommandsEv == IsEvent("Commands") /\ stack' = <<"program">> /\ UNCHANGED held
TraceNext == AllocEv \/ CommandsEv \/ (TraceDone /\ UNCHANGED hvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
