------------------------------ MODULE UartTrace ------------------------------
(* Validates executions of the real packet UART of either platform.           *)
(*   Mode "bytes"  what a reception returns and leaves unread     (U01)       *)
(*   Mode "time"   when it returns                                (U02)       *)
(*   Mode "plain"  plain reception and sending                    (U03)       *)
EXTENDS Uart, TraceBase

CONSTANT Mode
VARIABLES plat, tick
tvars == <<ph, c, got, found, done, last, wire, plat, tick, tid, l>>

TraceInit == TraceBaseInit /\ UartInit /\ plat = "none" /\ tick = 1

NewEv == IsEvent("New") /\ ph = "idle" /\ plat' = E.plat /\ tick' = E.tick /\ UNCHANGED uvars

Per(op) == IF plat = "arduino" THEN [receive |-> "call", until |-> "byte", between |-> "found"][op]
           ELSE [receive |-> "byte", until |-> "call", between |-> "call"][op]
\* what a time-out of 0 means
Zero(op) == IF plat = "arduino" THEN [receive |-> 0, until |-> E.devto, between |-> NoLimit][op]
            ELSE [receive |-> 0, until |-> NoLimit, between |-> AnyLimit][op]
RecvCall == [op |-> E.op, size |-> E.size, s |-> E.s, e |-> E.e, t |-> E.t, per |-> Per(E.op),
             lim |-> IF E.to > 0 THEN E.to ELSE Zero(E.op), lim2 |-> IF E.to > 0 THEN E.to ELSE E.devto,
             early |-> IF plat = "arduino" THEN 1000 ELSE 2000 * tick,
             grace |-> 3000 + E.slack,
             late |-> 3000 + 1000 * tick + E.slack, devto |-> E.devto, data |-> <<>>, dev |-> E.dev]
CallEv == /\ IsEvent("Call")
          /\ IF E.op = "send" THEN BeginSend([op |-> "send", data |-> E.data, devto |-> E.devto, dev |-> E.dev])
             ELSE BeginRecv(RecvCall)
          /\ UNCHANGED <<plat, tick>>

TakeEv == /\ IsEvent("Take") /\ ph = "recv"
          /\ Mode # "time" => MayTake
          /\ Mode = "time" => TakeInTime(E.t)
          /\ TakeEffect(E.b, E.t) /\ UNCHANGED <<plat, tick>>
\* many bytes, none of them a delimiter, taken one after the other
RunEv == /\ IsEvent("Run") /\ ph = "recv" /\ Mode # "time" /\ MayTakeRun(E.data)
         /\ TakeRunEffect(E.data, E.t) /\ UNCHANGED <<plat, tick>>
\* the Arduino core's flush(false) discards what was received: only when sending
DropEv == IsEvent("Drop") /\ (ph = "send" \/ Mode = "time") /\ UNCHANGED uvars /\ UNCHANGED <<plat, tick>>

WireEv == /\ IsEvent("Wire") /\ MayWire(E.given, E.res, E.data) /\ (plat = "esp32" => E.port = 1)
          /\ WireEffect(E.data) /\ UNCHANGED <<plat, tick>>
DrainedEv == IsEvent("Drained") /\ (plat = "esp32" => E.port = 1) /\ UNCHANGED uvars /\ UNCHANGED <<plat, tick>>

\* the device itself may report an error as a negative number
Reported == IF c.dev /\ E.res < 0 THEN 0 ELSE E.res
RetEv == /\ IsEvent("Ret") /\ ph # "idle"
         /\ IF ph = "send" THEN Mode = "plain" => /\ RetSend(Reported) /\ E.sent /\ E.same
            ELSE /\ Mode # "time" => RetBytes(Reported, E.buf)
                 /\ Mode = "time" => RetInTime(E.t) /\ LeavesNothing(E.next)
                 /\ (Mode # "time" /\ Framed) => GivesUpLate(E.t)
         /\ Mode = "plain" => E.devto = c.devto
         /\ Idle /\ UNCHANGED <<plat, tick>>

TraceNext == NewEv \/ CallEv \/ TakeEv \/ RunEv \/ DropEv \/ WireEv \/ DrainedEv \/ RetEv
             \/ (TraceDone /\ UNCHANGED uvars /\ UNCHANGED <<plat, tick>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
