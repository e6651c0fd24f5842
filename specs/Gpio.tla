--------------------------------- MODULE Gpio --------------------------------
(* Digital pins: the pads of the chip, the calls of the library, and chip     *)
(* selectors.                                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES pads,   \* pin -> [dir, up, down, quiet, level] for every pin touched so far
          c,      \* call in progress, or None
          failed, \* the driver refused something during this call
          looked, \* levels read during this call
          before  \* pads when the call began
gvars == <<pads, c, failed, looked, before>>
None == [op |-> "none"]
Fresh == [dir |-> "none", up |-> FALSE, down |-> FALSE, quiet |-> TRUE, level |-> -1]
Pad(f, p) == IF p \in DOMAIN f THEN f[p] ELSE Fresh
Put(f, p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]
GpioInit == pads = [p \in {} |-> Fresh] /\ c = None /\ failed = FALSE /\ looked = <<>> /\ before = pads

\* the level a call drives; -1: none
Level == CASE c.op \in {"set", "deselect"} -> 1 [] c.op \in {"reset", "select"} -> 0 [] OTHER -> -1

Begin(call) == c = None /\ c' = call /\ failed' = FALSE /\ looked' = <<>> /\ before' = pads /\ UNCHANGED pads
\* a pad never sees a level other than the one asked for
Write(p, v) == /\ c # None /\ p = c.pin /\ v = Level
               /\ pads' = Put(pads, p, [Pad(pads, p) EXCEPT !.level = v])
               /\ UNCHANGED <<c, failed, looked, before>>
Read(p, v) == /\ c # None /\ p = c.pin /\ looked' = Append(looked, v) /\ UNCHANGED <<pads, c, failed, before>>
Direction(p, dir, ok) == /\ c.op = "init" /\ p = c.pin
                         /\ pads' = IF ok THEN Put(pads, p, [Pad(pads, p) EXCEPT !.dir = dir]) ELSE pads
                         /\ failed' = (failed \/ ~ok) /\ UNCHANGED <<c, looked, before>>
Pull(p, up, down, ok) == /\ c.op = "init" /\ p = c.pin
                         /\ pads' = IF ok THEN Put(pads, p, [Pad(pads, p) EXCEPT !.up = up, !.down = down]) ELSE pads
                         /\ failed' = (failed \/ ~ok) /\ UNCHANGED <<c, looked, before>>
Config(ps, dir, up, down, quiet, ok) ==
  /\ c.op = "init" /\ ps = <<c.pin>>
  /\ pads' = IF ok THEN Put(pads, c.pin, [Pad(pads, c.pin) EXCEPT !.dir = dir, !.up = up, !.down = down, !.quiet = quiet]) ELSE pads
  /\ failed' = (failed \/ ~ok) /\ UNCHANGED <<c, looked, before>>
Requested == LET d == Pad(pads, c.pin) IN d.dir = c.dir /\ d.up = c.up /\ d.down = c.down /\ d.quiet
MayRet(res) ==
  CASE c.op = "init" -> IF res THEN ~failed /\ Requested ELSE failed \/ pads = before
    [] c.op = "check" -> /\ pads = before /\ looked # <<>> /\ res = (looked[Len(looked)] = 1)
    [] OTHER -> res /\ Pad(pads, c.pin).level = Level
Ret == c' = None /\ UNCHANGED <<pads, failed, looked, before>>
==============================================================================
