------------------------------- MODULE UartPort ------------------------------
(* Setting up the UART ports of an ESP32.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES drivers,  \* ports with a driver
          conf,     \* port -> frame format and speed configured last
          pins,     \* port -> pins routed to it last
          c,        \* call in progress, or None
          bad       \* a step of it failed
uvars == <<drivers, conf, pins, c, bad>>
None == [port |-> -1]
Empty == [p \in {} |-> None]
Put(f, p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]
PortInit == drivers = {} /\ conf = Empty /\ pins = Empty /\ c = None /\ bad = FALSE
NoChange == -1
\* the driver's numbers for a frame format
DataOf(n) == n - 5
ParityOf(n) == <<0, 2, 3>>[n + 1]
StopOf(n) == <<1, 2, 3>>[n - 1]
UsesRts(flow) == flow \in {1, 3}

Begin(call) == c = None /\ c' = call /\ bad' = FALSE /\ UNCHANGED <<drivers, conf, pins>>
\* a port in use is left alone
Mine(p) == c # None /\ p = c.port /\ p \notin drivers
Config(p, v, ok) == /\ Mine(p) /\ conf' = (IF ok THEN Put(conf, p, v) ELSE conf) /\ bad' = (bad \/ ~ok) /\ UNCHANGED <<drivers, pins, c>>
Pins(p, v, ok) == /\ Mine(p) /\ pins' = (IF ok THEN Put(pins, p, v) ELSE pins) /\ bad' = (bad \/ ~ok) /\ UNCHANGED <<drivers, conf, c>>
Install(p, ok) == /\ Mine(p) /\ drivers' = (IF ok THEN drivers \cup {p} ELSE drivers) /\ bad' = (bad \/ ~ok) /\ UNCHANGED <<conf, pins, c>>
Removed(p) == c = None /\ drivers' = drivers \ {p} /\ UNCHANGED <<conf, pins, c, bad>>
Configured == /\ c.port \in DOMAIN conf /\ c.port \in DOMAIN pins
              /\ LET v == conf[c.port] IN
                   /\ v.baud = c.baud /\ v.data = DataOf(c.data) /\ v.parity = ParityOf(c.parity) /\ v.stop = StopOf(c.stop) /\ v.flow = c.flow
                   /\ UsesRts(c.flow) => v.thresh \in 1..127    \* below the size of the hardware's buffer
              /\ pins[c.port] = [tx |-> c.tx, rx |-> c.rx, rts |-> NoChange, cts |-> NoChange]
\* success: the port has a driver, and if this call set it up, exactly as requested
MayRet(res) == IF c.there THEN res
               ELSE IF bad THEN ~res ELSE res /\ c.port \in drivers /\ Configured
Ret == c' = None /\ UNCHANGED <<drivers, conf, pins, bad>>
==============================================================================
