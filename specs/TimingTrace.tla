----------------------------- MODULE TimingTrace -----------------------------
EXTENDS Timing, TraceBase
CONSTANT Platform
tvars == <<wvars, tid, l>>
\* the scheduler's tick, in microseconds
Tick == IF Platform = "arduino" THEN 1000 ELSE 10000
TraceInit == TraceBaseInit /\ TimingInit
CallEv == IsEvent("Call") /\ Begin(E)
ProgramEv == IsEvent("Program") /\ \E r \in {E.us} : Program(r)
SleepEv == IsEvent("Sleep") /\ Sleep(E.late)
DeepEv == IsEvent("Deep") /\ E.set /\ \E r \in {E.us} : Deep(r)
RetEv == /\ IsEvent("Ret") /\ Ret
         /\ CASE c.op = "delay" ->
                   \* to within two ticks of the scheduler
                   /\ Leq(Plus(c.at, c.us), Plus(E.at, Us(IF Platform = "arduino" THEN 0 ELSE 2 * Tick)))
                   /\ NotAfter(E.at, Us(2 * Tick))
              [] c.op = "delayMicroseconds" -> NotBefore(E.at) /\ NotAfter(E.at, E.grain)
              [] c.op = "lightSleep" -> NotBefore(E.at) /\ NotAfter(E.at, Plus(E.grain, Us(1000)))
              [] c.op = "deepSleep" -> deep = c.us
              [] c.op = "milliseconds" -> E.res[2] % 1000 = 0 /\ Counter(E.res, WholeMs(c.at), E.at, MsWrap, 4294967)
              [] c.op = "microseconds" -> IF Platform = "arduino" THEN Counter(E.res, c.at, E.at, UsWrap, 4294) ELSE Counter(E.res, c.at, E.at, NoWrap, 0)
TraceNext == CallEv \/ ProgramEv \/ SleepEv \/ DeepEv \/ RetEv \/ (TraceDone /\ UNCHANGED wvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
