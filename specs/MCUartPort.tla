------------------------------ MODULE MCUartPort -----------------------------
(* init as an algorithm on several ports, every step failing or not.          *)
EXTENDS UartPort, TLC, Json
CONSTANTS Ports, MaxCalls
VARIABLES pc, ret, hist
mvars == <<uvars, pc, ret, hist>>
Formats == {[data |-> 8, parity |-> 0, stop |-> 2, flow |-> 0], [data |-> 7, parity |-> 1, stop |-> 4, flow |-> 3]}
Init == PortInit /\ pc = "idle" /\ ret = FALSE /\ hist = <<>>
Start == /\ pc = "idle" /\ Len(hist) < MaxCalls
         /\ \E p \in Ports, f \in Formats :
              /\ Begin([port |-> p, rx |-> 3 + p, tx |-> 1 + p, baud |-> 9600, data |-> f.data, parity |-> f.parity, stop |-> f.stop, flow |-> f.flow,
                        there |-> p \in drivers])
              /\ hist' = Append(hist, [port |-> p, f |-> f.data, fail |-> ""])
              /\ pc' = IF p \in drivers THEN "ret" ELSE "config"
              /\ ret' = (p \in drivers)
Note(ok, s) == hist' = IF ok THEN hist ELSE [hist EXCEPT ![Len(hist)].fail = s]
Go(ok, next) == pc' = IF ok THEN next ELSE "ret"
Format == [baud |-> c.baud, data |-> DataOf(c.data), parity |-> ParityOf(c.parity), stop |-> StopOf(c.stop), flow |-> c.flow, thresh |-> 122]
DoConfig == pc = "config" /\ \E ok \in BOOLEAN : Config(c.port, Format, ok) /\ Note(ok, "c") /\ Go(ok, "pins") /\ UNCHANGED ret
DoPins == pc = "pins" /\ \E ok \in BOOLEAN : Pins(c.port, [tx |-> c.tx, rx |-> c.rx, rts |-> NoChange, cts |-> NoChange], ok) /\ Note(ok, "p") /\ Go(ok, "install") /\ UNCHANGED ret
DoInstall == pc = "install" /\ \E ok \in BOOLEAN : Install(c.port, ok) /\ Note(ok, "i") /\ ret' = ok /\ pc' = "ret"
DoRet == pc = "ret" /\ Ret /\ pc' = "idle" /\ UNCHANGED <<ret, hist>>
DoRemove == /\ pc = "idle" /\ Len(hist) < MaxCalls /\ \E p \in drivers : Removed(p) /\ hist' = Append(hist, [port |-> p, f |-> 0, fail |-> "x"])
            /\ UNCHANGED <<pc, ret>>
Next == Start \/ DoConfig \/ DoPins \/ DoInstall \/ DoRet \/ DoRemove
Spec == Init /\ [][Next]_mvars
RetAllowed == pc = "ret" => MayRet(ret)
NeverTouchesAPortInUse == [][\A p \in drivers : p \in drivers' => /\ (p \in DOMAIN conf => conf'[p] = conf[p]) /\ (p \in DOMAIN pins => pins'[p] = pins[p])]_mvars
Emit == (pc' = "idle" /\ Len(hist') = MaxCalls) => PrintT("@T@" \o ToJson(hist'))
==============================================================================
