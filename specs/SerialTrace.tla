----------------------------- MODULE SerialTrace -----------------------------
(* Validates executions of the real SerialOut: a Call, what it gave to the    *)
(* UART (Wire), and its return (Ret).                                         *)
EXTENDS SerialOut, TraceBase
VARIABLES want,   \* what the call in progress must send
          port, busy
tvars == <<cap, text, width, fill, prec, out, want, port, busy, tid, l>>

TraceInit == TraceBaseInit /\ cap = 0 /\ text = <<>> /\ width = 0 /\ fill = Space /\ prec = 0 /\ out = <<>>
             /\ want = <<>> /\ port = 0 /\ busy = FALSE
NewEv == /\ IsEvent("New") /\ ~busy /\ cap' = E.cap /\ text' = <<>> /\ width' = 0 /\ fill' = Space /\ prec' = 0
         /\ out' = <<>> /\ want' = <<>> /\ port' = E.port /\ UNCHANGED busy
Sent(op) == CASE op = "end" -> text
              [] op = "endl" -> Append(text, Newline)
              [] op = "log" -> LET t1 == text \o Take(E.s, Room)
                                   t2 == IF Len(E.n) <= cap - Len(t1) THEN t1 \o E.n ELSE t1
                               IN Append(t2, Newline)
              [] OTHER -> <<>>
CallEv == /\ IsEvent("Call") /\ ~busy /\ busy' = TRUE
          /\ CASE E.op = "str" -> Str(E.s)
               [] E.op = "int" -> Number(E.s)
               [] E.op = "byte" -> Byte(E.c)
               [] E.op = "bytes" -> Bytes(E.s)
               [] E.op = "float" -> Float(E.g, E.s, E.r, E.k)
               [] E.op = "prec" -> SetPrec(E.c)
               [] E.op \in {"end", "endl", "log"} -> Clear
          /\ want' = Sent(E.op) /\ out' = <<>> /\ UNCHANGED port
\* bytes reach the UART in order, nothing beyond what is to be sent
WireEv == /\ IsEvent("Wire") /\ busy /\ E.res = E.given
          /\ out' = out \o E.data /\ Len(out') <= Len(want) /\ SubSeq(want, 1, Len(out')) = out'
          /\ UNCHANGED <<cap, text, width, fill, prec, want, port, busy>>
DrainedEv == IsEvent("Drained") /\ UNCHANGED <<svars, want, port, busy>>
RetEv == /\ IsEvent("Ret") /\ busy /\ busy' = FALSE /\ E.same /\ E.sent /\ out = want
         /\ UNCHANGED <<svars, want, port>>
TraceNext == NewEv \/ CallEv \/ WireEv \/ DrainedEv \/ RetEv \/ (TraceDone /\ UNCHANGED <<svars, want, port, busy>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
