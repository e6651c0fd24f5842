-------------------------------- MODULE Timing -------------------------------
(* Delays and sleeps. Times are pairs <<seconds, microseconds>>.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Mega == 1000000
Plus(a, b) == LET u == a[2] + b[2] IN <<a[1] + b[1] + u \div Mega, u % Mega>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Times(k, a) == <<k * a[1] + (k * a[2]) \div Mega, (k * a[2]) % Mega>>
WholeMs(a) == <<a[1], a[2] - (a[2] % 1000)>>
Us(n) == <<n \div Mega, n % Mega>>
Zero == <<0, 0>>

VARIABLES c,     \* call in progress, or None
          late,  \* by how much the sleep driver overslept in this call
          prog,  \* wake-up time programmed in this call, or <<>>
          deep   \* wake-up time of the deep sleep begun in this call, or <<>>
wvars == <<c, late, prog, deep>>
None == [op |-> "none"]
TimingInit == c = None /\ late = Zero /\ prog = <<>> /\ deep = <<>>
Begin(call) == c = None /\ c' = call /\ late' = Zero /\ prog' = <<>> /\ deep' = <<>>
Program(t) == c # None /\ prog' = t /\ UNCHANGED <<c, late, deep>>
Sleep(over) == c.op = "lightSleep" /\ late' = Plus(late, over) /\ UNCHANGED <<c, prog, deep>>
Deep(t) == c.op = "deepSleep" /\ deep = <<>> /\ deep' = t /\ UNCHANGED <<c, late, prog>>

NotBefore(now) == Leq(Plus(c.at, c.us), now)
\* no later than asked, but for the time taken by the platform (pause, jitter), by an oversleeping driver, and `more`
NotAfter(now, more) == Leq(now, Plus(Plus(Plus(c.at, c.us), Plus(c.pause, late)), Plus(Us(20 * c.jitter), more)))
\* counters of 32 bits: <<4294967, 296000>> is 2^32 milliseconds, a thousand times 2^32 microseconds
MsWrap(k) == Times(k, <<4294967, 296000>>)
UsWrap(k) == Plus(MsWrap(k \div 1000), Times(k % 1000, <<4294, 967296>>))
NoWrap(k) == Zero
\* a counter which wraps, read some time from `from` to `now`; one wrap takes at least `wrap` seconds, and less than one more
Counter(res, from, now, Wrap(_), wrap) ==
  \E k \in (IF wrap = 0 THEN 0 ELSE from[1] \div (wrap + 1))..(IF wrap = 0 THEN 0 ELSE now[1] \div wrap) :
     LET t == Plus(res, Wrap(k)) IN Leq(from, t) /\ Leq(t, now)
Ret == c' = None /\ UNCHANGED <<late, prog, deep>>
==============================================================================
