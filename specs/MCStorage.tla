------------------------------ MODULE MCStorage ------------------------------
(* Exhaustive model of Storage for small regions.  Every transition is also   *)
(* printed: the check walks the state graph and replays it on the code.       *)
EXTENDS Storage, TLC, Json

CONSTANTS Caps, Keys, Sizes, Vals

MCKeys == {<<>>, <<97>>, <<97, 98>>, <<97, 98, 99, 100>>, <<97, 98, 99, 100, 101>>}

VARIABLE act        \* label of the last transition, not part of the state

mvars == <<cap, recs, used, act>>

Init == /\ \E c \in Caps : StorageInit(c)
        /\ act = [a |-> "init"]

Next == \/ \E k \in Keys, n \in Sizes, v \in Vals :
             /\ Set(k, n, v, Accepts(k, n))
             /\ act' = [a |-> "set", k |-> k, n |-> n, v |-> v]
        \/ Reopen /\ act' = [a |-> "reopen"]
        \/ Clear /\ act' = [a |-> "clear"]

Spec == Init /\ [][Next]_mvars

View == svars
St == [cap |-> cap, recs |-> recs]
Emit == PrintT("@T@" \o ToJson(St) \o "|" \o ToJson(act') \o "|" \o ToJson(St'))

(* The sum of the records is what `used` says. *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE HDR + Head(s).n + Sum(Tail(s))
UsedIsSum == used = Sum(recs)

(* a store changes at most the name and size stored *)
OnlyThat == [][\A k \in Keys, n \in Sizes :
                 (act'.a = "set" /\ (Pad(k) # Pad(act'.k) \/ n # act'.n)) => Load(k, n)' = Load(k, n)]_mvars
ReadBack == [][\A k \in Keys, n \in Sizes :
                 (act'.a = "set" /\ act'.k = k /\ act'.n = n /\ Accepts(k, n)) => Load(k, n)' = act'.v]_mvars
ReopenKeeps == [][act'.a = "reopen" => \A k \in Keys, n \in Sizes : Load(k, n)' = Load(k, n)]_mvars
RefusedKeeps == [][(act'.a = "set" /\ ~Accepts(act'.k, act'.n)) => recs' = recs]_mvars
NeverLost == [][act'.a # "clear" => \A k \in Keys, n \in Sizes : Stored(k, n) => Stored(k, n)']_mvars
==============================================================================
