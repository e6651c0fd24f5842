SPECIFICATION Spec
CONSTANTS Ports = {0, 1}
 MaxCalls = 4
ACTION_CONSTRAINT Emit
INVARIANT RetAllowed
PROPERTY NeverTouchesAPortInUse
CHECK_DEADLOCK FALSE
