SPECIFICATION Spec
CONSTANTS R = 90 RFlood = 30
INVARIANT RightWhenDone
CHECK_DEADLOCK FALSE
