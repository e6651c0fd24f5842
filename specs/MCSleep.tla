-------------------------------- MODULE MCSleep ------------------------------
(* The light sleep and the busy wait as algorithms, with time passing between *)
(* any two steps, a driver that wakes early, oversleeps or refuses, and a     *)
(* scheduler that delays by whole ticks.                                      *)
EXTENDS Timing, TLC, Json
CONSTANTS MaxAsked, MaxPause, Errs, Tick, MaxFaults, MaxStart
VARIABLES now, pc, wait, cur, outs, pausedAt, paused, steps
mvars == <<wvars, now, pc, wait, cur, outs, pausedAt, paused, steps>>
ErrsDef == {-3, -1, 0, 2}
T(n) == <<0, n>>
Init == TimingInit /\ now \in 0..MaxStart /\ pc = "idle" /\ wait = 0 /\ cur = 0 /\ outs = <<>> /\ pausedAt = -1 /\ paused = 0 /\ steps = 0
\* one call into the platform: a unit of time, and once per run the scripted pause
Platform(pre) == /\ steps' = steps + 1
                 /\ \/ now' = pre + 1 /\ UNCHANGED <<paused, pausedAt>>
                    \/ /\ pausedAt = -1 /\ \E p \in 1..MaxPause : now' = pre + 1 + p /\ paused' = p /\ pausedAt' = steps
Start == /\ pc = "idle" /\ \E op \in {"lightSleep", "delayMicroseconds"}, n \in 0..MaxAsked :
              Begin([op |-> op, us |-> T(n), at |-> T(now), pause |-> T(MaxPause), jitter |-> 0])
         /\ pc' = "first" /\ UNCHANGED <<now, wait, cur, outs, pausedAt, paused, steps>>
First == pc = "first" /\ Platform(now) /\ wait' = now' + c.us[2] /\ pc' = "read" /\ UNCHANGED <<wvars, cur, outs>>
Read == pc = "read" /\ Platform(now) /\ cur' = now'
        /\ pc' = (IF now' >= wait THEN "ret" ELSE IF c.op = "lightSleep" THEN "program" ELSE "read") /\ UNCHANGED <<wvars, wait, outs>>
Prog == pc = "program" /\ Platform(now) /\ Program(T(wait - cur)) /\ pc' = "sleep" /\ UNCHANGED <<wait, cur, outs>>
Max(a, b) == IF a > b THEN a ELSE b
DoSleep == /\ pc = "sleep"
           /\ \/ \E e \in (IF Len(outs) < MaxFaults THEN Errs ELSE {0}) :
                   /\ Platform(now + Max(0, wait - cur + e)) /\ Sleep(T(Max(0, e)))
                   /\ outs' = Append(outs, <<1, e>>) /\ pc' = "read"
              \/ /\ Len(outs) < MaxFaults /\ Platform(now) /\ Sleep(Zero)
                 /\ outs' = Append(outs, <<0, 0>>) /\ pc' = "delay"
           /\ UNCHANGED <<wait, cur>>
Delay == /\ pc = "delay" /\ LET n == (wait - cur) \div Tick IN Platform(IF n = 0 THEN now ELSE (now + (n * Tick)) - (now % Tick))
         /\ pc' = "read" /\ UNCHANGED <<wvars, wait, cur, outs>>
Next == Start \/ First \/ Read \/ Prog \/ DoSleep \/ Delay
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
\* the calls between reading the clock and falling asleep, and the readings before and after
Overhead == 5
NeverEarly == pc = "ret" => NotBefore(T(now))
NeverLate == pc = "ret" => NotAfter(T(now), T(Overhead))
Returns == (pc = "first") ~> (pc = "ret")
Emit == (pc = "read" /\ pc' = "ret") => PrintT("@T@" \o ToJson([op |-> c.op, n |-> c.us[2], outs |-> outs, at |-> pausedAt, pause |-> paused]))
==============================================================================
