SPECIFICATION Spec
CONSTANT N = 12
INVARIANTS RightWhenDone Always
CHECK_DEADLOCK FALSE
