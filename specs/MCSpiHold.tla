------------------------------- MODULE MCSpiHold -----------------------------
(* Initialisation and release as algorithms over driver calls, each of which  *)
(* may fail.  What they do must be allowed by SpiBus.  Every API call with    *)
(* the outcomes of its driver calls is emitted.                               *)
EXTENDS SpiBus, TLC, Json
CONSTANTS Objects, HostChoices
MCHosts == {<<1, 1>>, <<1, 2>>}
VARIABLES host,        \* object -> host
          dev, bus,    \* what each object remembers: its device (0: none), whether it initialised the bus
          alive, pc, ret, outs, pre
mvars == <<svars, host, dev, bus, alive, pc, ret, outs, pre>>
St == [host |-> host, dev |-> dev, bus |-> bus, alive |-> alive, holder |-> holder, devs |-> devs]
Cf == [mosi |-> 1, miso |-> 2, sck |-> 3]
Dc == [freq |-> 1, half |-> TRUE]
Init == /\ SpiInit /\ host \in HostChoices /\ dev = [o \in Objects |-> 0] /\ bus = [o \in Objects |-> FALSE]
        /\ alive = [o \in Objects |-> TRUE] /\ pc = "idle" /\ ret = FALSE /\ outs = <<>> /\ pre = ""
Mine == UNCHANGED <<host, alive, pre>>
Begins == \E o \in Objects :
            /\ pc = "idle" /\ alive[o]
            /\ \/ Begin([op |-> "init", o |-> o]) /\ pc' = "init"
               \/ Begin([op |-> "release", o |-> o]) /\ pc' = "remove"
               \/ Begin([op |-> "destroy", o |-> o]) /\ pc' = "remove"
               \/ Begin([op |-> "xfer", o |-> o]) /\ pc' = "xfer"
            /\ outs' = <<>> /\ ret' = FALSE /\ pre' = ToJson(St)
            /\ UNCHANGED <<host, dev, bus, alive>>
Out(f, ok) == outs' = Append(outs, <<f, IF ok THEN 1 ELSE 0>>)
H == host[c.o]
DoInit == /\ pc = "init"
          /\ \E want \in BOOLEAN : LET ok == want /\ H \notin DOMAIN holder
               IN /\ BusInit(H, ok, Cf) /\ Out("i", want)
                  /\ bus' = IF ok THEN [bus EXCEPT ![c.o] = TRUE] ELSE bus
                  /\ pc' = IF ok THEN "add" ELSE "ret"
          /\ ret' = FALSE /\ UNCHANGED dev /\ Mine
DoAdd == /\ pc = "add"
         /\ \E ok \in BOOLEAN : LET d == CHOOSE x \in 1..4 : x \notin DOMAIN devs
               IN /\ AddDev(H, d, ok, Dc) /\ Out("a", ok)
                  /\ dev' = IF ok THEN [dev EXCEPT ![c.o] = d] ELSE dev
                  /\ pc' = IF ok THEN "ret" ELSE "remove"
                  /\ ret' = ok
         /\ UNCHANGED bus /\ Mine
DoRemove == /\ pc = "remove"
            /\ IF dev[c.o] = 0 THEN UNCHANGED <<svars, outs, dev>> /\ pc' = "free"
               ELSE \E ok \in BOOLEAN : /\ RemoveDev(dev[c.o], ok) /\ Out("r", ok)
                                        /\ dev' = IF ok THEN [dev EXCEPT ![c.o] = 0] ELSE dev
                                        /\ pc' = IF ok THEN "free" ELSE "ret"
            /\ ret' = FALSE /\ UNCHANGED bus /\ Mine
DoFree == /\ pc = "free"
          /\ IF ~bus[c.o] THEN UNCHANGED <<svars, outs, bus>> /\ ret' = (c.op # "init")
             ELSE \E ok \in BOOLEAN : /\ BusFree(H, ok) /\ Out("f", ok)
                                      /\ bus' = IF ok THEN [bus EXCEPT ![c.o] = FALSE] ELSE bus
                                      /\ ret' = (ok /\ c.op # "init")
          /\ pc' = "ret" /\ UNCHANGED dev /\ Mine
DoXfer == /\ pc = "xfer" /\ pc' = "ret" /\ ret' = (dev[c.o] # 0)
          /\ UNCHANGED <<svars, outs, dev, bus>> /\ Mine
DoRet == /\ pc = "ret" /\ End /\ pc' = "idle"
         /\ alive' = IF c.op = "destroy" THEN [alive EXCEPT ![c.o] = FALSE] ELSE alive
         \* what a destroyed object could not give back stays lost: forget its memory
         /\ dev' = IF c.op = "destroy" THEN [dev EXCEPT ![c.o] = 0] ELSE dev
         /\ bus' = IF c.op = "destroy" THEN [bus EXCEPT ![c.o] = FALSE] ELSE bus
         /\ UNCHANGED <<host, ret, outs, pre>>
Next == Begins \/ DoInit \/ DoAdd \/ DoRemove \/ DoFree \/ DoXfer \/ DoRet
Spec == Init /\ [][Next]_mvars
View == <<svars, host, dev, bus, alive, pc, ret, outs>>
Emit == pc = "ret" => PrintT("@T@" \o pre \o "|" \o ToJson([a |-> c.op, o |-> c.o, outs |-> outs]) \o "|" \o ToJson(St'))
RetAllowed == pc = "ret" => CASE c.op = "init" -> MayRetInit(ret, H, Cf, Dc)
                               [] c.op = "release" -> MayRetRelease(ret)
                               [] c.op = "destroy" -> MayRetDestroy
                               [] OTHER -> TRUE
\* what an object remembers is what it holds
Remembers == pc = "idle" => \A o \in Objects : alive[o] =>
               /\ DevsOf(o) = (IF dev[o] = 0 THEN {} ELSE {dev[o]})
               /\ bus[o] = Holds(host[o], o)
==============================================================================
