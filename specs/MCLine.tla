------------------------------- MODULE MCLine --------------------------------
(* The line algorithm step by step, for all end points of a small grid: what  *)
(* it has drawn when it stops is a line from a to b, the same from either end *)
(* and within reach while it runs.                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANT N
VARIABLES a, b, p, err, drawn, pc
C == INSTANCE Canvas WITH w <- 0, h <- 0, rot <- 0, pic <- {}
vars == <<a, b, p, err, drawn, pc>>
lc == IF C!Abs(b[2] - a[2]) > C!Abs(b[1] - a[1]) THEN 2 ELSE 1
sc == 3 - lc
ld == C!Abs(b[lc] - a[lc])
sd == C!Abs(b[sc] - a[sc])
G == (-N..N) \X (0..N)
Init == /\ a = <<0, 0>> /\ b \in G
        /\ p = IF a[lc] > b[lc] THEN b ELSE a
        /\ err = ld \div 2 /\ drawn = {} /\ pc = "run"
to == IF a[lc] > b[lc] THEN a ELSE b
sign == IF (IF a[lc] > b[lc] THEN b ELSE a)[sc] < to[sc] THEN 1 ELSE -1
At(l, s) == IF lc = 1 THEN <<l, s>> ELSE <<s, l>>
Step == /\ pc = "run"
        /\ IF p[lc] > to[lc] THEN pc' = "done" /\ UNCHANGED <<p, err, drawn>>
           ELSE /\ drawn' = drawn \cup {p} /\ pc' = "run"
                /\ LET e == err - sd IN
                   IF e < 0 THEN p' = At(p[lc] + 1, p[sc] + sign) /\ err' = e + ld
                   ELSE p' = At(p[lc] + 1, p[sc]) /\ err' = e
        /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Step]_vars
RightWhenDone == pc = "done" => C!IsLine(drawn, a, b)
Always == \A q \in drawn : C!Off2(q, a, b) <= C!Length(a, b)
==============================================================================
