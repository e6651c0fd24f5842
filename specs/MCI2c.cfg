SPECIFICATION Spec
CONSTANT MaxLen = 4
ACTION_CONSTRAINT Emit
INVARIANTS RetAllowed NoReceiveAfterFailure
CHECK_DEADLOCK FALSE
