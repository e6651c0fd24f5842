--------------------------------- MODULE MCAdc -------------------------------
(* The read as an algorithm: reads repeated on several pins with every        *)
(* failure of the driver. The unit is given back on every path.               *)
EXTENDS Adc, TLC, Json
CONSTANTS Pins, MaxReads
VARIABLES pc, ret, hist
mvars == <<avars, pc, ret, hist>>
Init == AdcInit /\ pc = "idle" /\ ret = -1 /\ hist = <<>>
Here == ChannelOf(c)
Start == /\ pc = "idle" /\ Len(hist) < MaxReads
         /\ \E p \in Pins : Begin(p) /\ hist' = Append(hist, [pin |-> p, fail |-> ""])
                            /\ pc' = IF HasChannel(p) THEN "new" ELSE "ret"
         /\ ret' = -1
Note(ok, s) == hist' = IF ok THEN hist ELSE [hist EXCEPT ![Len(hist)].fail = s]
DoNew == pc = "new" /\ \E ok \in BOOLEAN : New(Here[1], ok) /\ Note(ok, "n") /\ pc' = (IF ok THEN "config" ELSE "ret") /\ UNCHANGED ret
DoConfig == pc = "config" /\ \E ok \in BOOLEAN : Configure(Here[1], Here[2], FullRange, Bits, ok) /\ Note(ok, "c") /\ pc' = (IF ok THEN "read" ELSE "del") /\ UNCHANGED ret
DoRead == pc = "read" /\ \E ok \in BOOLEAN, v \in 0..1 : Convert(Here[1], Here[2], ok, v) /\ Note(ok, "r") /\ ret' = (IF ok THEN v ELSE -1) /\ pc' = "del"
DoDel == pc = "del" /\ Delete(Here[1]) /\ pc' = "ret" /\ UNCHANGED <<ret, hist>>
DoRet == pc = "ret" /\ Ret /\ pc' = "idle" /\ UNCHANGED <<ret, hist>>
Next == Start \/ DoNew \/ DoConfig \/ DoRead \/ DoDel \/ DoRet
Spec == Init /\ [][Next]_mvars
RetAllowed == pc = "ret" => MayRet(ret)
FreeBetween == pc = "idle" => busy = {}
NeverTwice == [][pc = "new" => Here[1] \notin busy]_mvars
Emit == (pc = "ret" /\ Len(hist) = MaxReads) => PrintT("@T@" \o ToJson(hist))
==============================================================================
