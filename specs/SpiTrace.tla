------------------------------- MODULE SpiTrace ------------------------------
(* Validates executions of the real SPI classes.                              *)
(*   Mode "transfer"  (P01)      Mode "holding"  (P02)                        *)
EXTENDS SpiBus, TraceBase
CONSTANT Mode
VARIABLES host,    \* object -> its host number, or clock frequency (Arduino)
          open     \* Arduino: a transaction is open
tvars == <<svars, host, open, tid, l>>
TraceInit == TraceBaseInit /\ SpiInit /\ host = Empty /\ open = FALSE
P01 == Mode = "transfer"
P02 == Mode = "holding"

CallEv == /\ IsEvent("Call") /\ Begin(E) /\ UNCHANGED open
          /\ host' = IF E.op = "new" THEN With(host, E.o, IF "host" \in DOMAIN E THEN E.host ELSE E.freq) ELSE host
Keep == UNCHANGED <<host, open>>
BusConf(e) == [mosi |-> e.mosi, miso |-> e.miso, sck |-> e.sck]
BusInitEv == /\ IsEvent("BusInit") /\ Keep
             /\ P02 => c.op = "init" /\ E.host = host[c.o]
             /\ BusInit(E.host, E.ok, BusConf(E)) /\ (P02 => E.wp = -1 /\ E.hd = -1)
AddDevEv == /\ IsEvent("AddDev") /\ Keep
            /\ P02 => c.op = "init" /\ E.mode = 0 /\ E.cs = -1 /\ E.plain /\ E.queue
            /\ AddDev(E.host, E.id, E.ok, [freq |-> E.freq, half |-> E.half])
RemoveEv == IsEvent("RemoveDev") /\ Keep /\ E.live /\ RemoveDev(E.id, E.ok)
FreeEv == IsEvent("BusFree") /\ Keep /\ BusFree(E.host, E.ok)
PieceEv == /\ IsEvent("Piece") /\ Keep
           /\ IF "dev" \in DOMAIN E THEN P02 => E.live /\ E.dev \in DevsOf(c.o) ELSE c.op # "direct" => open
           /\ P01 => /\ E.legal /\ MayPiece(E.n, E.ok, E.hastx, E.tx, E.rx)
                     /\ c.op = "receive" => E.hasrx
           /\ PieceEffect(E.n, E.ok, E.rx)
NullEv == IsEvent("Null") /\ Keep /\ DevsOf(c.o) = {} /\ failed' = TRUE /\ UNCHANGED <<c, pos, got, hvars>>
BeginEv == /\ IsEvent("Begin") /\ ~open /\ open' = TRUE /\ UNCHANGED <<svars, host>>
           /\ E.clock = host[c.o] /\ E.order = 1 /\ E.mode = 0
EndEv == IsEvent("End") /\ open /\ open' = FALSE /\ UNCHANGED <<svars, host>>
RetEv == /\ IsEvent("Ret") /\ Keep /\ ~open
         /\ CASE c.op \in Transfer -> P01 => MayRetTransfer(E.res, E.buf) /\ E.same
              [] c.op = "init" -> P02 => MayRetInit(E.res, host[c.o], BusConf(c), [freq |-> c.freq, half |-> c.half])
              [] c.op = "release" -> P02 => MayRetRelease(E.res)
              [] c.op = "destroy" -> P02 => MayRetDestroy
              [] OTHER -> TRUE
         /\ End
TraceNext == CallEv \/ BusInitEv \/ AddDevEv \/ RemoveEv \/ FreeEv \/ PieceEv \/ NullEv \/ BeginEv \/ EndEv \/ RetEv
             \/ (TraceDone /\ UNCHANGED <<svars, host, open>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
