SPECIFICATION Spec
CONSTANTS MaxOps = 6
Bytes = {0, 255, 165, 60}
VIEW View
INVARIANT Same
CHECK_DEADLOCK FALSE
