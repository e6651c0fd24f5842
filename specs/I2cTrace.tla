------------------------------- MODULE I2cTrace ------------------------------
(* Validates executions of the real I2C classes.                              *)
EXTENDS I2c, TraceBase
VARIABLES dev,     \* the device: [port, addr, to]
          steps    \* what a bus operation did so far
tvars == <<ivars, dev, steps, tid, l>>
TraceInit == TraceBaseInit /\ I2cInit /\ dev = [port |-> 0] /\ steps = <<>>
NewEv == IsEvent("New") /\ dev' = E /\ UNCHANGED <<ivars, steps>>
CallEv == IsEvent("Call") /\ Begin(E) /\ steps' = <<>> /\ UNCHANGED dev
Has(f) == f \in DOMAIN E
\* ESP32: the right port, waiting as long as configured (to within a scheduler tick)
Driver == /\ Has("port") => E.port = dev.port
          /\ Has("wait") => E.wait <= dev.to /\ E.wait > dev.to - 10
ResetByte == 6
SendEv == /\ IsEvent("Send") /\ UNCHANGED dev
          /\ IF c.op = "reset"
             THEN /\ E.addr = 0 /\ E.data = <<ResetByte>> /\ steps = <<>> /\ steps' = <<"reset">> /\ UNCHANGED ivars
                  /\ Has("port") => E.port = dev.port
             ELSE Driver /\ E.addr = dev.addr /\ Send(E.data, E.accepted, E.ack) /\ UNCHANGED steps
ReqEv == IsEvent("Req") /\ Driver /\ E.addr = dev.addr /\ Request(E.n, E.data) /\ UNCHANGED <<dev, steps>>
\* an address is probed by a start, the address for writing with its acknowledge checked, and a stop
ProbeEv == /\ IsEvent("Probe") /\ c.op = "probe" /\ steps = <<>> /\ E.port = dev.port
           /\ E.starts = 1 /\ E.stops = 1 /\ E.check /\ ~E.reads /\ E.data = <<2 * c.addr>>
           /\ steps' = <<E.ack>> /\ UNCHANGED <<ivars, dev>>
ConfigEv == /\ IsEvent("Config") /\ c.op = "init" /\ steps = <<>> /\ E.port = dev.port
            /\ E.master /\ E.sda = c.sda /\ E.scl = c.scl /\ E.freq = c.freq /\ E.pu = c.pu /\ E.pc = c.pc
            /\ steps' = <<E.ok>> /\ UNCHANGED <<ivars, dev>>
InstallEv == /\ IsEvent("Install") /\ c.op = "init" /\ steps = <<TRUE>> /\ E.port = dev.port /\ E.master
             /\ steps' = <<TRUE, E.ok>> /\ UNCHANGED <<ivars, dev>>
RetEv == /\ IsEvent("Ret") /\ E.same /\ E.links = 0 /\ UNCHANGED <<dev, steps>>
         /\ CASE c.op = "reset" -> steps = <<"reset">>
              [] c.op = "probe" -> steps = <<E.res>>
              [] c.op = "init" -> E.res = (steps = <<TRUE, TRUE>>)
              [] OTHER -> MayRet(E.res, E.buf)
         /\ Ret
TraceNext == NewEv \/ CallEv \/ SendEv \/ ReqEv \/ ProbeEv \/ ConfigEv \/ InstallEv \/ RetEv
             \/ (TraceDone /\ UNCHANGED <<ivars, dev, steps>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
