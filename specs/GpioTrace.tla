------------------------------- MODULE GpioTrace -----------------------------
(* Validates executions of the real pin classes.                              *)
EXTENDS Gpio, TraceBase
CONSTANT Platform   \* "arduino" or "esp32"
tvars == <<gvars, tid, l>>
\* pins of the ESP32, and those of them that can be driven
Existing == IF Platform = "esp32" THEN (0..39) \ {20, 24, 28, 29, 30, 31} ELSE 0..255
Driven == IF Platform = "esp32" THEN Existing \ (34..39) ELSE Existing
Possible == c.pin \in (IF c.dir = "output" THEN Driven ELSE Existing)
TraceInit == TraceBaseInit /\ GpioInit
CallEv == IsEvent("Call") /\ Begin(E)
WriteEv == IsEvent("Write") /\ Write(E.pin, E.level)
ReadEv == IsEvent("Read") /\ Read(E.pin, E.level)
DirectionEv == IsEvent("Direction") /\ Direction(E.pin, E.dir, E.ok)
PullEv == IsEvent("Pull") /\ Pull(E.pin, E.up, E.down, E.ok)
ConfigEv == IsEvent("Config") /\ Config(E.pins, E.dir, E.up, E.down, E.quiet, E.ok)
RetEv == /\ IsEvent("Ret") /\ MayRet(E.res)
         /\ c.op = "init" => E.res = (Possible /\ ~failed)
         /\ Ret
TraceNext == CallEv \/ WriteEv \/ ReadEv \/ DirectionEv \/ PullEv \/ ConfigEv \/ RetEv \/ (TraceDone /\ UNCHANGED gvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
