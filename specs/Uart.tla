--------------------------------- MODULE Uart --------------------------------
(* Calls of the packet UART.  The environment delivers bytes to a queue; a    *)
(* call takes them from its front one by one (Take) and returns (Ret).        *)
(* Times are whole numbers of some unit; Ms units are a millisecond.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANT Ms
VARIABLES ph,     \* "idle", or what kind of call is in progress: "recv", "send"
          c,      \* the call
          got,    \* bytes that belong to the call's result so far
          found,  \* the start byte was seen (or is not asked for)
          done,   \* the end byte was seen
          last,   \* time of the last byte taken (of the call, if none was)
          wire    \* bytes the UART accepted during a send
uvars == <<ph, c, got, found, done, last, wire>>

(* A call c has: op, size (of the buffer), s, e (start and end byte), t (time of call), lim (time-out in ms, NoLimit, *)
(* or AnyLimit where nothing is said), lim2 (the same from the start byte on), early, late, grace (tolerance of the   *)
(* platform's clock; how long before its end a call may look for bytes for the last time), per ("call": one time-out for the whole call, "byte": it restarts at each byte, "found": at     *)
(* each byte from the start byte on), data (to send), devto (the UART's own time-out).                                *)
NoLimit == -1
AnyLimit == -2

UartInit == ph = "idle" /\ c = [op |-> "none"] /\ got = <<>> /\ found = FALSE /\ done = FALSE /\ last = 0 /\ wire = <<>>

BeginRecv(call) == /\ ph = "idle" /\ ph' = "recv" /\ c' = call /\ got' = <<>> /\ found' = (call.op # "between")
                   /\ done' = FALSE /\ last' = call.t /\ wire' = <<>>
BeginSend(call) == /\ ph = "idle" /\ ph' = "send" /\ c' = call /\ got' = <<>> /\ found' = FALSE
                   /\ done' = FALSE /\ last' = 0 /\ wire' = <<>>

Full == Len(got) >= c.size
Framed == c.op \in {"until", "between"}
TooSmall == c.op = "between" /\ c.size < 2     \* the two framing bytes do not fit: may be refused at once
Over == done \/ Full \/ TooSmall               \* nothing to wait for

(* ---- taking a byte ---- *)
MayTake == ph = "recv" /\ ~done /\ ~Full
TakeEffect(b, t) ==
  /\ last' = t
  /\ IF found THEN got' = Append(got, b) /\ done' = (Framed /\ b = c.e) /\ UNCHANGED found
     ELSE IF b = c.s THEN got' = <<b>> /\ found' = TRUE /\ UNCHANGED done
     ELSE UNCHANGED <<got, found, done>>
  /\ UNCHANGED <<ph, c, wire>>

\* the same for a run of bytes that are neither start nor end byte
MayTakeRun(bs) == MayTake /\ (found => Len(got) + Len(bs) <= c.size)
TakeRunEffect(bs, t) == last' = t /\ got' = (IF found THEN got \o bs ELSE got) /\ UNCHANGED <<ph, c, found, done, wire>>

(* ---- time ---- *)
Base == IF c.per = "byte" \/ (c.per = "found" /\ found) THEN last ELSE c.t
Max2(a, b) == IF a > b THEN a ELSE b
Limit == IF c.per = "found" /\ found THEN c.lim2 ELSE c.lim
TakeInTime(t) == Limit >= 0 => t <= Base + Limit * Ms + c.late
GivesUpLate(t) == ~Over => Limit # NoLimit /\ (Limit >= 0 => t - Base >= Limit * Ms - c.early)
RetInTime(t) == /\ GivesUpLate(t)
                /\ Limit >= 0 => t <= (IF done \/ Full THEN last ELSE Base + Limit * Ms) + c.late

(* ---- returning ---- *)
RetBytes(res, buf) == res = Len(got) /\ buf = got
\* next: when the first byte still unread arrived, -1 if there is none
\* - it came too late, or the call was taking bytes until then
LeavesNothing(next) == (~Over /\ Limit >= 0 /\ next >= 0) =>
                          \E t \in {next, last} : t - Base >= Limit * Ms - c.early - c.grace
Idle == ph' = "idle" /\ UNCHANGED <<c, got, found, done, last, wire>>

(* ---- sending ---- *)
\* the driver was given bytes from the rest of the data on and accepted the first k of them (k < 0: error)
MayWire(given, k, data) == /\ ph = "send"
                           /\ given <= Len(c.data) - Len(wire)
                           /\ LET n == IF k < 0 THEN 0 ELSE k IN data = SubSeq(c.data, Len(wire) + 1, Len(wire) + n)
WireEffect(data) == wire' = wire \o data /\ UNCHANGED <<ph, c, got, found, done, last>>
RetSend(res) == res = Len(wire)
==============================================================================
