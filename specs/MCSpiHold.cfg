SPECIFICATION Spec
CONSTANTS
 Objects = {1, 2}
 HostChoices <- MCHosts
ACTION_CONSTRAINT Emit
INVARIANTS RetAllowed Remembers
CHECK_DEADLOCK FALSE
