SPECIFICATION Spec
CONSTANTS MaxAsked = 8
 MaxPause = 4
 Errs <- ErrsDef
 Tick = 3
 MaxFaults = 3
 MaxStart = 2
INVARIANTS NeverEarly NeverLate
PROPERTY Returns
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
