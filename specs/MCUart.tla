-------------------------------- MODULE MCUart -------------------------------
(* The receive loops as algorithms on a millisecond counter that wraps at M,  *)
(* with bytes arriving and time passing between any two steps.  Every byte    *)
(* they take and every result must be allowed by Uart.  Time unit: 1 ms.      *)
(* Complete calls are emitted as scenarios for the real code.                 *)
EXTENDS Uart, TLC, Json

CONSTANTS M,          \* the counter counts modulo M
          Sizes, Timeouts, MaxBytes, MaxTime,
          Pers,       \* how time-outs restart: "call", "byte", "found"
          Ops,        \* subset of {"receive", "until", "between"}
          Step        \* how far time may move between two steps
Bytes == {1, 2, 3}    \* start, end, other

VARIABLES now, tick0, \* time, counter at the start
          queue, arr, \* bytes waiting; all arrivals so far
          pc, since,  \* algorithm: where it is, counter value its current time-out started at
          ret,
          lag     \* how far time has moved since the algorithm's last step
mvars == <<ph, c, got, found, done, last, wire, now, tick0, queue, arr, pc, since, ret, lag>>

Counter == (tick0 + now) % M
Elapsed(from) == (Counter - from + M) % M      \* the wrapped difference

Init == /\ UartInit /\ now = 0 /\ tick0 \in {0, M - 2, M - 1} /\ queue = <<>> /\ arr = <<>>
        /\ pc = "start" /\ since = 0 /\ ret = <<>> /\ lag = 0

Start == /\ pc = "start"
         /\ \E op \in Ops, n \in Sizes, to \in Timeouts, per \in Pers :
              /\ per = "found" => op = "between"
              /\ BeginRecv([op |-> op, size |-> n, s |-> 1, e |-> 2, t |-> now, per |-> per, lim |-> to, lim2 |-> to,
                            early |-> 1, grace |-> Step, late |-> 1 + 3 * Step, devto |-> 0, data |-> <<>>])
         /\ pc' = "check" /\ since' = Counter
         /\ lag' = 0 /\ UNCHANGED <<now, tick0, queue, arr, ret>>

\* the environment
Arrive == /\ pc \notin {"start", "end"} /\ Len(arr) < MaxBytes
          /\ \E b \in Bytes : queue' = Append(queue, b) /\ arr' = Append(arr, <<now, b>>)
          /\ UNCHANGED <<uvars, now, tick0, pc, since, ret, lag>>
Tick == /\ pc \notin {"start", "end"} /\ now < MaxTime
        /\ \E d \in 1..(Step - lag) : now' = now + d /\ lag' = lag + d
        /\ UNCHANGED <<uvars, tick0, queue, arr, pc, since, ret>>

\* the algorithm: while there is room, the packet is incomplete and the wrapped difference is below the time-out, poll
Check == /\ pc = "check"
         /\ pc' = IF ~Over /\ Elapsed(since) < c.lim THEN "poll" ELSE "return"
         /\ lag' = 0 /\ UNCHANGED <<uvars, now, tick0, queue, arr, since, ret>>
Poll == /\ pc = "poll"
        /\ IF queue = <<>> THEN UNCHANGED <<uvars, queue, since>>
           ELSE /\ TakeEffect(Head(queue), now) /\ queue' = Tail(queue)
                /\ since' = IF c.per = "byte" \/ (c.per = "found" /\ found') THEN Counter ELSE since
        /\ pc' = "check"
        /\ lag' = 0 /\ UNCHANGED <<now, tick0, arr, ret>>
Return == /\ pc = "return" /\ pc' = "end" /\ ret' = got
          /\ UNCHANGED <<uvars, now, tick0, queue, arr, since, lag>>
Next == Start \/ Arrive \/ Tick \/ Check \/ Poll \/ Return
Spec == Init /\ [][Next]_mvars

Emit == (pc = "return" /\ pc' = "end") =>
           PrintT("@T@" \o ToJson([op |-> c.op, size |-> c.size, to |-> c.lim, tick0 |-> tick0, arr |-> arr]))

TakesAllowed == [][(pc = "poll" /\ queue # <<>> /\ queue' # queue /\ Len(queue') < Len(queue)) => MayTake /\ TakeInTime(now)]_mvars
ReturnsAllowed == [][(pc = "return" /\ pc' = "end") => RetInTime(now) /\ RetBytes(Len(ret'), ret')
                      /\ LeavesNothing(IF queue = <<>> THEN -1 ELSE arr[Len(arr) - Len(queue) + 1][1])]_mvars
\* everything taken is a prefix of what arrived, and the result is the packet in it
Conserved == Len(arr) >= Len(queue) /\ \A i \in 1..Len(queue) : arr[Len(arr) - Len(queue) + i][2] = queue[i]
Taken == [i \in 1..(Len(arr) - Len(queue)) |-> arr[i][2]]
ResultRight ==
  pc = "end" =>
    /\ Len(ret) <= c.size
    /\ \E k \in 0..Len(Taken) : SubSeq(Taken, k + 1, Len(Taken)) = ret /\ (c.op # "between" => k = 0)
         /\ (c.op = "between" /\ ret # <<>>) => ret[1] = 1 /\ \A i \in 1..k : Taken[i] # 1
    /\ c.op # "receive" => \A i \in 1..(Len(ret) - 1) : (c.op = "between" /\ i = 1) \/ ret[i] # 2
==============================================================================
