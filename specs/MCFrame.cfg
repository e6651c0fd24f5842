SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS RoundTrip SizeRight
PROPERTIES OnlyThat ColorKept Cleared
CHECK_DEADLOCK FALSE
