--------------------------------- MODULE MCI2c -------------------------------
(* The device as an algorithm, every outcome of the bus.                      *)
EXTENDS I2c, TLC, Json
CONSTANTS MaxLen
VARIABLES pc, buf, ret, outs
mvars == <<ivars, pc, buf, ret, outs>>
Data(n) == [i \in 1..n |-> i]
Init == I2cInit /\ pc = "idle" /\ buf = <<>> /\ ret = FALSE /\ outs = <<>>
Start == /\ pc = "idle" /\ \E op \in {"send", "receive", "both"}, k \in 0..MaxLen, n \in 0..MaxLen :
              /\ Begin([op |-> op, data |-> IF op = "receive" THEN <<>> ELSE Data(k), n |-> IF op = "send" THEN 0 ELSE n])
              /\ op = "send" => n = 0
              /\ op = "receive" => k = 0
              /\ pc' = IF op = "receive" THEN "recv" ELSE "send"
         /\ UNCHANGED <<buf, ret, outs>>
DoSend == /\ pc = "send"
          /\ \E room \in 0..Len(c.data), ack \in BOOLEAN :
               /\ Send(c.data, room, ack)
               /\ outs' = Append(outs, <<IF ack THEN 1 ELSE 0, -1, room>>)
               /\ LET ok == ack /\ room = Len(c.data) IN
                    /\ ret' = ok /\ pc' = IF ok /\ c.op = "both" THEN "recv" ELSE "ret"
          /\ UNCHANGED buf
DoRecv == /\ pc = "recv"
          /\ \E k \in 0..c.n, ack \in BOOLEAN :
               LET m == IF ack THEN k ELSE 0 IN
               /\ Request(c.n, Data(m)) /\ outs' = Append(outs, <<IF ack THEN 1 ELSE 0, k, -1>>)
               /\ ret' = (m = c.n) /\ buf' = IF m = c.n THEN Data(m) ELSE buf
          /\ pc' = "ret"
DoRet == pc = "ret" /\ pc' = "end" /\ UNCHANGED <<ivars, buf, ret, outs>>
Next == Start \/ DoSend \/ DoRecv \/ DoRet
Spec == Init /\ [][Next]_mvars
Emit == pc = "ret" => PrintT("@T@" \o ToJson([op |-> c.op, k |-> Len(c.data), n |-> c.n, outs |-> outs]))
RetAllowed == pc = "ret" => MayRet(ret, buf)
NoReceiveAfterFailure == (c.op = "both" /\ recv # "no") => sent = "ok"
==============================================================================
