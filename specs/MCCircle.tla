------------------------------ MODULE MCCircle -------------------------------
(* The circle algorithm step by step: what it has drawn when it stops is a    *)
(* circle, and the rows filled on the way are the outline and what it encloses*)
(* (enclosed: not reachable from outside by steps along the axes).            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS R, RFlood
VARIABLES r, x, y, err, drawn, fill, pc
vars == <<r, x, y, err, drawn, fill, pc>>
C == INSTANCE Canvas WITH w <- 0, h <- 0, rot <- 0, pic <- {}
Init == r \in 0..R /\ x = -r /\ y = 0 /\ err = 2 - 2 * r /\ drawn = {} /\ fill = {} /\ pc = "run"
Row(yy) == (x..(-x)) \X {yy}
Step == /\ pc = "run"
        /\ IF x > 0 THEN pc' = "done" /\ UNCHANGED <<x, y, err, drawn, fill>>
           ELSE /\ drawn' = drawn \cup {<<-x, y>>, <<x, y>>, <<x, -y>>, <<-x, -y>>}
                /\ fill' = fill \cup Row(y) \cup Row(-y)
                /\ pc' = "run"
                /\ LET up == err <= y
                       y1 == IF up THEN y + 1 ELSE y
                       e1 == IF up THEN err + 2 * y1 + 1 ELSE err
                       e2 == IF up /\ -x = y1 /\ err <= x THEN 0 ELSE err
                       right == e2 > x
                   IN /\ y' = y1
                      /\ x' = IF right THEN x + 1 ELSE x
                      /\ err' = IF right THEN e1 + (x + 1) * 2 + 1 ELSE e1
        /\ UNCHANGED r
Spec == Init /\ [][Step]_vars
(* everything outside the outline, within a box around it *)
RECURSIVE Grow(_, _)
Grow(seen, edge) == IF edge = {} THEN seen
  ELSE LET next == {q \in UNION {{<<p[1] + 1, p[2]>>, <<p[1] - 1, p[2]>>, <<p[1], p[2] + 1>>, <<p[1], p[2] - 1>>} : p \in edge} :
                      q \notin seen /\ q \notin drawn /\ C!Abs(q[1]) <= r + 1 /\ C!Abs(q[2]) <= r + 1}
       IN Grow(seen \cup next, next)
Box == (-(r + 1)..(r + 1)) \X (-(r + 1)..(r + 1))
Outside == LET s == {<<r + 1, r + 1>>} IN Grow(s, s)
RightWhenDone == pc = "done" => /\ C!IsCircle(drawn, r)
                                /\ fill = C!Filled(drawn, r)
                                /\ r <= RFlood => fill = Box \ Outside
==============================================================================
