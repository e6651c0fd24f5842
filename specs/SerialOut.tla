------------------------------ MODULE SerialOut ------------------------------
(* Text output over a serial line: text is collected in a buffer (Text) and   *)
(* sent at the end of a line.                                                 *)
EXTENDS Text

VARIABLE out      \* what the last operation sent
svars == <<cap, text, width, fill, prec, out>>

Newline == 10
Insert(op) == op /\ out' = <<>>
End == out' = text /\ Clear
Endl == out' = Append(text, Newline) /\ Clear     \* complete also when the buffer is full
==============================================================================
