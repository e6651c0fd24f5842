SPECIFICATION Spec
CONSTANTS MaxOps = 8
Bytes = {0, 255, 165, 60, 129}
VIEW View
INVARIANT Same
CHECK_DEADLOCK FALSE
