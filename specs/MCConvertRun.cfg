SPECIFICATION Spec
CONSTANTS
 MaxOpts = 3
 Limits <- LimitsQ
 Values <- Vals
INVARIANTS OptionsUnderstood EndAllowed Teeth
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
