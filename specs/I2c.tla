--------------------------------- MODULE I2c ---------------------------------
(* Transfers to one device on an I2C bus.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES c,      \* call in progress: [op, data, n, ...]; op "none" if none
          sent,   \* "no", "ok" or "bad": what became of its sending part
          recv,   \* the same for its receiving part
          got     \* bytes received
ivars == <<c, sent, recv, got>>
None == [op |-> "none"]
I2cInit == c = None /\ sent = "no" /\ recv = "no" /\ got = <<>>

Begin(call) == c = None /\ c' = call /\ sent' = "no" /\ recv' = "no" /\ got' = <<>>
Sends == c.op \in {"send", "both"}
Receives == c.op \in {"receive", "both"}

\* one transmission: what the library gave the bus, how much of it was accepted, and whether it was acknowledged
Send(data, accepted, ack) ==
  /\ Sends /\ sent = "no" /\ data = c.data
  /\ sent' = IF ack /\ accepted = Len(data) THEN "ok" ELSE "bad"
  /\ UNCHANGED <<c, recv, got>>
Request(n, bytes) ==
  /\ Receives /\ recv = "no" /\ n = c.n
  /\ c.op = "both" => sent = "ok"
  /\ recv' = IF Len(bytes) = n THEN "ok" ELSE "bad"
  /\ got' = bytes
  /\ UNCHANGED <<c, sent>>
Good == (Sends => sent = "ok") /\ (Receives => recv = "ok")
MayRet(res, buf) == /\ res = Good
                    /\ Sends => sent # "no"            \* it was tried
                    /\ c.op = "receive" => recv # "no"
                    /\ (res /\ Receives) => buf = got
Ret == c' = None /\ UNCHANGED <<sent, recv, got>>
==============================================================================
