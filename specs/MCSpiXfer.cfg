SPECIFICATION Spec
CONSTANTS
 Limit = 4
 MaxN = 26
ACTION_CONSTRAINT Emit
INVARIANTS RetAllowed Complete
CHECK_DEADLOCK FALSE
