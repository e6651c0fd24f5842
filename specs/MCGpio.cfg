SPECIFICATION Spec
CONSTANTS Pins = {1, 2}
 MaxSelectors = 2
ACTION_CONSTRAINT Emit
INVARIANTS RetAllowed SelectedLow OnlyThatPin
VIEW View
CHECK_DEADLOCK FALSE
