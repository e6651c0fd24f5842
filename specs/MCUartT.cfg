SPECIFICATION Spec
CONSTANTS
 Ms = 1
 M = 12
 Sizes = {0, 1, 2, 3}
 Timeouts = {1, 2, 3}
 MaxBytes = 3
 MaxTime = 8
 Pers = {"call", "byte", "found"}
 Ops = {"receive", "until", "between"}
 Step = 1
ACTION_CONSTRAINT Emit
INVARIANTS Conserved ResultRight
PROPERTIES TakesAllowed ReturnsAllowed
CHECK_DEADLOCK FALSE
