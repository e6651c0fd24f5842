------------------------------- MODULE MCLayout -------------------------------
(* The format as such: every region is a sequence of records followed by      *)
(* bytes that mean nothing; storing writes one record's bytes and leaves the  *)
(* rest, and what is read back is what was stored - also from regions that    *)
(* somebody else wrote, and whatever lies behind the records.                 *)
EXTENDS Layout, TLC, Json

CONSTANTS Caps, Names, Objects, Rest
MCNames == {<<>>, <<97>>, <<97, 98, 99, 100>>, <<1, 2, 3, 4, 5>>}
MCObjects == {<<0>>, <<7>>, <<7, 0>>, <<255, 9>>}
(* contents of the part that means nothing *)
MCRest == {0, 5, 255}

VARIABLES img, act
mvars == <<cap, recs, img, act>>

Fill(c, b) == [i \in 1..c |-> IF i % 2 = 1 THEN b ELSE IF b = 255 THEN 255 ELSE 0]
Init == /\ cap \in Caps
        /\ \E b \in Rest : img = Fill(cap, b) /\ act = [a |-> "init", b |-> b]
        /\ recs = <<>>
Over(old, at, new) == [i \in 1..Len(old) |-> IF i > at /\ i <= at + Len(new) THEN new[i - at] ELSE old[i]]
(* the bytes of the record at place i are written, nothing else *)
Put(i, r) == img' = Over(img, Used(SubSeq(recs, 1, i - 1)), Bytes(r))
Store(k, d) ==
  /\ recs' = Stored(k, d)
  /\ IF Has(recs, k, Len(d)) THEN LET i == First(Matching(recs, k, Len(d))) IN Put(i, recs'[i])
     ELSE IF Fits(k, Len(d)) THEN Put(Len(recs) + 1, recs'[Len(recs) + 1])
     ELSE UNCHANGED img
  /\ act' = [a |-> "store", k |-> k, d |-> d]
  /\ UNCHANGED cap
(* initialising: all zeros *)
Clear == recs' = <<>> /\ img' = Fill(cap, 0) /\ act' = [a |-> "clear"] /\ UNCHANGED cap
Next == (\E k \in Names, d \in Objects : Store(k, d)) \/ Clear
Spec == Init /\ [][Next]_mvars
View == <<cap, recs, img>>
St == [recs |-> recs, img |-> img]
Emit == PrintT("@T@" \o ToJson(St) \o "|" \o ToJson(act') \o "|" \o ToJson(St'))

Faithful == Parse(img) = recs
SameSize == Len(img) = cap
Prefix == SubSeq(img, 1, Used(recs)) = Image(recs)
==============================================================================
