SPECIFICATION Spec
CONSTANTS MaxOps = 16
Bytes = {0, 255, 165, 60, 1, 128}
VIEW ViewShort
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
