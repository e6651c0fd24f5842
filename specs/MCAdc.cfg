SPECIFICATION Spec
CONSTANTS Pins = {36, 4, 5}
 MaxReads = 4
ACTION_CONSTRAINT Emit
INVARIANTS RetAllowed FreeBetween
PROPERTY NeverTwice
CHECK_DEADLOCK FALSE
