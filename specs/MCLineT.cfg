SPECIFICATION Spec
CONSTANT N = 40
INVARIANTS RightWhenDone Always
CHECK_DEADLOCK FALSE
