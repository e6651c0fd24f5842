-------------------------------- MODULE MCGpio -------------------------------
(* Pins and selectors used in any order, the driver refusing any request.     *)
EXTENDS Gpio, TLC, Json
CONSTANTS Pins, MaxSelectors
VARIABLES pc, stack, ret
mvars == <<gvars, pc, stack, ret>>
Calls == {[op |-> "init", pin |-> p, dir |-> d, up |-> u = "u", down |-> u = "d"] : p \in Pins, d \in {"input", "output"}, u \in {"u", "d", "n"}}
         \cup {[op |-> o, pin |-> p] : o \in {"set", "reset", "check"}, p \in Pins}
Init == GpioInit /\ pc = "idle" /\ stack = <<>> /\ ret = FALSE
Selected == {stack[i] : i \in 1..Len(stack)}
\* the user leaves a selected pin alone
Start == /\ pc = "idle" /\ pc' = "run" /\ UNCHANGED ret
         /\ \/ \E k \in Calls : k.pin \notin Selected /\ Begin(k) /\ UNCHANGED stack
            \/ \E p \in Pins \ Selected : Len(stack) < MaxSelectors /\ Begin([op |-> "select", pin |-> p]) /\ stack' = Append(stack, p)
            \/ /\ stack # <<>> /\ Begin([op |-> "deselect", pin |-> stack[Len(stack)]])
               /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Run == /\ pc = "run" /\ pc' = "ret" /\ UNCHANGED stack
       /\ IF Level # -1 THEN Write(c.pin, Level) /\ ret' = TRUE
          ELSE IF c.op = "check" THEN \E v \in 0..1 : Read(c.pin, v) /\ ret' = (v = 1)
          ELSE \E ok \in BOOLEAN : Config(<<c.pin>>, c.dir, c.up, c.down, TRUE, ok) /\ ret' = ok
End == pc = "ret" /\ pc' = "idle" /\ Ret /\ UNCHANGED <<stack, ret>>
Next == Start \/ Run \/ End
Spec == Init /\ [][Next]_mvars
RetAllowed == pc = "ret" => MayRet(ret)
\* between calls, a selected pin is low and one released is high until its user drives it
SelectedLow == pc = "idle" => \A p \in Selected : Pad(pads, p).level = 0
OnlyThatPin == c # None => \A p \in Pins \ {c.pin} : Pad(pads, p) = Pad(before, p)
View == <<pads, c, failed, looked, pc, stack, ret>>
\* the graph of the states between calls, for replay
Was == CASE c.op = "select" -> SubSeq(stack, 1, Len(stack) - 1) [] c.op = "deselect" -> Append(stack, c.pin) [] OTHER -> stack
Show(f, st) == ToJson([pads |-> [p \in Pins |-> Pad(f, p)], sel |-> st])
Emit == pc = "ret" => PrintT("@T@" \o Show(before, Was) \o "|" \o ToJson([c |-> c, looked |-> looked, ok |-> ~failed]) \o "|" \o Show(pads, stack))
==============================================================================
