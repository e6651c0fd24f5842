------------------------------ MODULE TextTrace ------------------------------
(* Validates executions of the real text buffer.  Every event carries the     *)
(* bytes of the supplied buffer up to size(), and every view as its offset in *)
(* the supplied buffer and its length.                                        *)
(*   Mode "bounds"  only: never overrun, append-only, clear empties           *)
(*   Mode "ints"    text, integers and hex exactly; floats as in "bounds"     *)
(*   Mode "floats"  everything exactly                                        *)
(*   Mode "views"   all views agree, contents as observed                     *)
EXTENDS Text, TraceBase

CONSTANT Mode
tvars == <<cap, text, width, fill, prec, tid, l>>

TraceInit == TraceBaseInit /\ cap = 0 /\ text = <<>> /\ width = 0 /\ fill = Space /\ prec = 0

Views == /\ E.size = Len(E.text) /\ E.cap = cap'
         /\ Mode = "views" => \A i \in 1..Len(E.views) : E.views[i] = <<0, E.size>>
         /\ Mode = "views" => \A i \in 1..Len(E.begins) : E.begins[i] = 0

(* what was observed, if it only appends within the buffer *)
Observed == /\ IsPrefixOf(text, E.text) /\ Len(E.text) <= cap
            /\ text' = E.text /\ UNCHANGED <<cap, width, fill, prec>>

NewEv == /\ IsEvent("New") /\ cap' = E.cap0 /\ text' = <<>> /\ width' = 0 /\ fill' = Space /\ prec' = 0
         /\ E.text = <<>> /\ Views
Exact(op) == CASE op = "str" -> Str(E.s)
               [] op = "char" -> Char(E.c)
               [] op = "int" -> Number(E.s)
               [] op = "byte" -> Byte(E.c)
               [] op = "bytes" -> Bytes(E.s)
               [] op = "float" -> IF Mode = "ints" THEN Observed ELSE Float(E.g, E.s, E.r, E.k)
               [] op = "width" -> SetWidth(E.c)
               [] op = "fill" -> SetFill(E.c)
               [] op = "prec" -> SetPrec(E.c)
               [] op = "clear" -> Clear
Quiet == {"width", "fill", "prec"}
Loose(op) == CASE op = "clear" -> Clear
               [] op \in Quiet -> UNCHANGED xvars
               [] OTHER -> Observed
OpEv == /\ IsEvent("Op")
        /\ IF Mode \in {"bounds", "views"} THEN Loose(E.op) ELSE Exact(E.op)
        /\ E.text = text' /\ Views

TraceNext == NewEv \/ OpEv \/ (TraceDone /\ UNCHANGED xvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
