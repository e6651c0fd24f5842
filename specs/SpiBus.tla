-------------------------------- MODULE SpiBus -------------------------------
(* Transfers over an SPI bus, and who holds the bus and its devices.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES c,       \* the call in progress (op "none": none)
          pos,     \* bytes of it transferred so far
          got,     \* bytes received by it
          failed,  \* one of its transfers failed
          holder,  \* host -> object that holds the bus (for hosts that are held)
          devs,    \* device -> [host, o, conf]: devices that exist
          conf,    \* host -> [mosi, miso, sck] it was initialised with
          before,  \* what the object held when the call began
          stuck,   \* giving something back failed during the call
          broken   \* acquiring something failed during the call
xvars == <<c, pos, got, failed>>
hvars == <<holder, devs, conf, before, stuck, broken>>
svars == <<xvars, hvars>>

None == [op |-> "none"]
Empty == [x \in {} |-> x]
SpiInit == /\ c = None /\ pos = 0 /\ got = <<>> /\ failed = FALSE
           /\ holder = Empty /\ devs = Empty /\ conf = Empty /\ before = <<>> /\ stuck = FALSE /\ broken = FALSE

Holds(h, o) == h \in DOMAIN holder /\ holder[h] = o
DevsOf(o) == {d \in DOMAIN devs : devs[d].o = o}
HostsOf(o) == {h \in DOMAIN holder : holder[h] = o}
Held(o) == <<HostsOf(o), DevsOf(o)>>
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Begin(call) == /\ c = None /\ c' = call /\ pos' = 0 /\ got' = <<>> /\ failed' = FALSE
               /\ before' = Held(call.o) /\ stuck' = FALSE /\ broken' = FALSE
               /\ UNCHANGED <<holder, devs, conf>>
End == c' = None /\ UNCHANGED <<pos, got, failed, hvars>>

(* ---- transfers ---- *)
Transfer == {"send", "receive", "exchange", "direct"}
\* n more bytes, tx of them sent and rx received
MayPiece(n, ok, hastx, tx, rx) ==
  /\ c.op \in Transfer /\ ~failed /\ pos + n <= c.n
  /\ (ok /\ c.op # "receive") => hastx /\ tx = SubSeq(c.data, pos + 1, pos + n)
  /\ (ok /\ c.op \in {"receive", "exchange"}) => Len(rx) = n
PieceEffect(n, ok, rx) ==
  /\ IF ok THEN pos' = pos + n /\ got' = got \o rx /\ UNCHANGED failed
     ELSE failed' = TRUE /\ UNCHANGED <<pos, got>>
  /\ UNCHANGED <<c, hvars>>
MayRetTransfer(res, buf) ==
  /\ res = (~failed /\ pos = c.n)
  /\ c.op \in {"receive", "exchange"} => SubSeq(buf, 1, pos) = got

(* ---- holding ---- *)
BusInit(h, ok, cf) == /\ IF ok THEN h \notin DOMAIN holder /\ holder' = With(holder, h, c.o) /\ conf' = With(conf, h, cf) /\ UNCHANGED broken
                         ELSE broken' = TRUE /\ UNCHANGED <<holder, conf>>
                      /\ UNCHANGED <<xvars, devs, before, stuck>>
AddDev(h, d, ok, cf) == /\ Holds(h, c.o)      \* never on a bus of another object
                        /\ IF ok THEN devs' = With(devs, d, [host |-> h, o |-> c.o, conf |-> cf]) /\ UNCHANGED broken
                           ELSE broken' = TRUE /\ UNCHANGED devs
                        /\ UNCHANGED <<xvars, holder, conf, before, stuck>>
RemoveDev(d, ok) == /\ d \in DevsOf(c.o)      \* it exists, and is the object's own
                    /\ IF ok THEN devs' = Without(devs, d) /\ UNCHANGED stuck ELSE stuck' = TRUE /\ UNCHANGED devs
                    /\ UNCHANGED <<xvars, holder, conf, before, broken>>
BusFree(h, ok) == /\ h \in DOMAIN holder => holder[h] = c.o
                  /\ IF ok THEN /\ h \in DOMAIN holder /\ \A d \in DOMAIN devs : devs[d].host # h
                                /\ holder' = Without(holder, h) /\ conf' = Without(conf, h) /\ UNCHANGED stuck
                     ELSE stuck' = TRUE /\ UNCHANGED <<holder, conf>>
                  /\ UNCHANGED <<xvars, devs, before, broken>>
Nothing == <<{}, {}>>
MayRetInit(res, h, bc, dc) ==
  IF res THEN /\ ~broken /\ HostsOf(c.o) = {h} /\ conf[h] = bc
              /\ \E d \in DOMAIN devs : DevsOf(c.o) = {d} /\ devs[d].host = h /\ devs[d].conf = dc
  ELSE broken /\ (stuck \/ Held(c.o) = before)
MayRetRelease(res) == res = (Held(c.o) = Nothing)
MayRetDestroy == stuck \/ Held(c.o) = Nothing
==============================================================================
