------------------------------- MODULE MCSpiXfer -----------------------------
(* The piece loop: transfers longer than Limit are split; stops at the first  *)
(* failing piece.  Every piece and result must be allowed by SpiBus.          *)
EXTENDS SpiBus, TLC, Json
CONSTANTS Limit, MaxN
VARIABLES pc, k, ret
mvars == <<svars, pc, k, ret>>
Data(n) == [i \in 1..n |-> i]
Wire(i) == 100 + i          \* what the other side sends
Init == SpiInit /\ pc = "start" /\ k = 0 /\ ret = FALSE
Start == /\ pc = "start"
         /\ \E op \in {"send", "receive", "exchange"}, n \in 0..MaxN :
              Begin([op |-> op, o |-> 0, n |-> n, data |-> IF op = "receive" THEN <<>> ELSE Data(n)])
         /\ pc' = "loop" /\ UNCHANGED <<k, ret>>
Piece == LET n == IF c.n - pos < Limit THEN c.n - pos ELSE Limit
             rx == IF c.op = "send" THEN <<>> ELSE [i \in 1..n |-> Wire(pos + i)]
             tx == IF c.op = "receive" THEN <<>> ELSE SubSeq(c.data, pos + 1, pos + n)
         IN /\ pc = "loop" /\ ~failed /\ pos < c.n
            /\ \E ok \in BOOLEAN : /\ Assert(MayPiece(n, ok, tx # <<>>, tx, rx), "piece")
                                   /\ PieceEffect(n, ok, IF ok THEN rx ELSE <<>>)
            /\ k' = k + 1 /\ UNCHANGED <<pc, ret>>
Ret == /\ pc = "loop" /\ (failed \/ pos = c.n)
       /\ pc' = "end" /\ ret' = ~failed /\ UNCHANGED <<svars, k>>
Next == Start \/ Piece \/ Ret
Spec == Init /\ [][Next]_mvars
Emit == (pc = "loop" /\ pc' = "end") => PrintT("@T@" \o ToJson([op |-> c.op, n |-> c.n, bad |-> IF failed THEN k ELSE 0]))
RetAllowed == pc = "end" => MayRetTransfer(ret, got)
Complete == (pc = "end" /\ ret) => /\ c.op # "send" => got = [i \in 1..c.n |-> Wire(i)]
                                   /\ k = (c.n + Limit - 1) \div Limit
==============================================================================
