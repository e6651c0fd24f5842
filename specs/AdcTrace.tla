------------------------------- MODULE AdcTrace ------------------------------
EXTENDS Adc, TraceBase
CONSTANT Platform   \* "arduino", "esp32" or "esp32-old"
tvars == <<avars, tid, l>>
TraceInit == TraceBaseInit /\ AdcInit
CallEv == IsEvent("Call") /\ \E r \in {E.pin} : Begin(r)
NewEv == IsEvent("New") /\ ~E.ulp /\ (Platform = "esp32-old" => E.power > 0) /\ New(E.unit, E.ok)
ConfigureEv == IsEvent("Configure") /\ Configure(E.unit, E.ch, E.atten, E.bits, E.ok)
ConvertEv == /\ IsEvent("Convert")
             /\ IF Platform = "arduino" THEN E.pin = c /\ val' = E.v /\ UNCHANGED <<busy, ready, c, bad>>
                ELSE Convert(E.unit, E.ch, E.ok, E.v)
DeleteEv == IsEvent("Delete") /\ Delete(E.unit)
RetEv == /\ IsEvent("Ret") /\ E.power = 0 /\ Ret
         /\ IF Platform = "arduino" THEN val # -1 /\ E.res = val ELSE MayRet(E.res)
TraceNext == CallEv \/ NewEv \/ ConfigureEv \/ ConvertEv \/ DeleteEv \/ RetEv \/ (TraceDone /\ UNCHANGED avars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
