------------------------------- MODULE MCViews -------------------------------
EXTENDS Views, TLC, Json
CONSTANTS Lens, Counts
VARIABLE act
mvars == <<base, off, len, act>>
Init == (\E n \in Lens : base = [i \in 1..n |-> <<i>>]) /\ off = 0 /\ len = Len(base) /\ act = [a |-> "init"]
Next == \/ \E n \in Counts : First(n) /\ act' = [a |-> "first", n |-> n]
        \/ \E n \in Counts : Last(n) /\ act' = [a |-> "last", n |-> n]
        \/ \E o \in Counts : Rest(o) /\ act' = [a |-> "rest", o |-> o]
        \/ \E o \in Counts, n \in Counts : Middle(o, n) /\ act' = [a |-> "mid", o |-> o, n |-> n]
        \/ Whole /\ act' = [a |-> "whole"]
Spec == Init /\ [][Next]_mvars
St == [n |-> Len(base), off |-> off, len |-> len]
View == St
Emit == PrintT("@T@" \o ToJson(St) \o "|" \o ToJson(act') \o "|" \o ToJson(St'))

(* the elements selected, told element by element *)
Sel(o, n) == SelectSeq(Elems, LAMBDA e : LET i == e[1] - off IN i > o /\ i <= o + n)
Exactly == [][/\ act'.a = "first" => Elems' = Sel(0, act'.n)
              /\ act'.a = "last" => Elems' = Sel(len - Min2(act'.n, len), act'.n)
              /\ act'.a = "rest" => Elems' = Sel(act'.o, len)
              /\ act'.a = "mid" => Elems' = Sel(act'.o, act'.n)]_mvars
Narrows == [][act'.a # "whole" => off' >= off /\ off' + len' <= off + len]_mvars
==============================================================================
