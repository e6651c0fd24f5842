SPECIFICATION Spec
CONSTANTS R = 24 RFlood = 12
INVARIANT RightWhenDone
CHECK_DEADLOCK FALSE
