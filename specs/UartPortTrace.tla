----------------------------- MODULE UartPortTrace ---------------------------
EXTENDS UartPort, TraceBase
tvars == <<uvars, tid, l>>
TraceInit == TraceBaseInit /\ PortInit
CallEv == IsEvent("Call") /\ E.there = (E.port \in drivers) /\ Begin(E)
ConfigEv == IsEvent("Config") /\ \E r \in {E} : Config(r.port, r, r.ok)
PinsEv == IsEvent("Pins") /\ \E r \in {E} : Pins(r.port, [tx |-> r.tx, rx |-> r.rx, rts |-> r.rts, cts |-> r.cts], r.ok)
InstallEv == IsEvent("Install") /\ E.blocking /\ \E r \in {E} : Install(r.port, r.ok)
RemovedEv == IsEvent("Removed") /\ \E r \in {E.port} : Removed(r)
RetEv == IsEvent("Ret") /\ MayRet(E.res) /\ (E.aborted => bad) /\ Ret
TraceNext == CallEv \/ ConfigEv \/ PinsEv \/ InstallEv \/ RemovedEv \/ RetEv \/ (TraceDone /\ UNCHANGED uvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
