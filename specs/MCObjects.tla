------------------------------- MODULE MCObjects -----------------------------
(* Independence of objects: a program with two text buffers is the            *)
(* composition of two copies of Text that share no variable; every step is a  *)
(* step of one of them and leaves the other as it is.  Its behaviours are the *)
(* interleavings of behaviours of Text, so a recorded history of several      *)
(* objects is allowed exactly when the part about each object is.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

VARIABLES cap1, text1, width1, fill1, prec1, cap2, text2, width2, fill2, prec2, act
vars1 == <<cap1, text1, width1, fill1, prec1>>
vars2 == <<cap2, text2, width2, fill2, prec2>>
mvars == <<vars1, vars2, act>>

A == INSTANCE Text WITH cap <- cap1, text <- text1, width <- width1, fill <- fill1, prec <- prec1
B == INSTANCE Text WITH cap <- cap2, text <- text2, width <- width2, fill <- fill2, prec <- prec2

Init == A!TextInit(4) /\ B!TextInit(5) /\ act = [o |-> 0, a |-> "init"]

Step1 == \/ A!Str(<<121, 122>>) /\ act' = [o |-> 1, a |-> "str", s |-> <<121, 122>>]
         \/ A!Number(<<55>>) /\ act' = [o |-> 1, a |-> "int", s |-> <<55>>]
         \/ A!SetWidth(3) /\ act' = [o |-> 1, a |-> "width", c |-> 3]
         \/ A!SetFill(48) /\ act' = [o |-> 1, a |-> "fill", c |-> 48]
         \/ A!SetPrec(1) /\ act' = [o |-> 1, a |-> "prec", c |-> 1]
         \/ A!Float(FALSE, <<51>>, 1, 1) /\ act' = [o |-> 1, a |-> "float", g |-> FALSE, s |-> <<51>>, r |-> 1, k |-> 1]
         \/ A!Clear /\ act' = [o |-> 1, a |-> "clear"]
Step2 == \/ B!Str(<<121, 122>>) /\ act' = [o |-> 2, a |-> "str", s |-> <<121, 122>>]
         \/ B!Number(<<55>>) /\ act' = [o |-> 2, a |-> "int", s |-> <<55>>]
         \/ B!SetWidth(3) /\ act' = [o |-> 2, a |-> "width", c |-> 3]
         \/ B!SetFill(48) /\ act' = [o |-> 2, a |-> "fill", c |-> 48]
         \/ B!SetPrec(1) /\ act' = [o |-> 2, a |-> "prec", c |-> 1]
         \/ B!Float(FALSE, <<51>>, 1, 1) /\ act' = [o |-> 2, a |-> "float", g |-> FALSE, s |-> <<51>>, r |-> 1, k |-> 1]
         \/ B!Clear /\ act' = [o |-> 2, a |-> "clear"]
Next == (Step1 /\ UNCHANGED vars2) \/ (Step2 /\ UNCHANGED vars1)
Spec == Init /\ [][Next]_mvars

St == [c1 |-> cap1, l1 |-> Len(text1), w1 |-> width1, f1 |-> fill1, p1 |-> prec1,
       c2 |-> cap2, l2 |-> Len(text2), w2 |-> width2, f2 |-> fill2, p2 |-> prec2]
View == St
Emit == PrintT("@T@" \o ToJson(St) \o "|" \o ToJson(act') \o "|" \o ToJson(St'))

Within == A!Within /\ B!Within
Independent == [][(act'.o = 1 => vars2' = vars2) /\ (act'.o = 2 => vars1' = vars1)]_mvars
(* each object alone behaves as the only one would *)
Alone1 == A!TextInit(4) /\ [][Step1]_vars1
Alone2 == B!TextInit(5) /\ [][Step2]_vars2
==============================================================================
