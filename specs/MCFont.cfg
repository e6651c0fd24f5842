SPECIFICATION Spec
CONSTANTS MaxLen = 2
Codes <- CodesQ
VIEW View
INVARIANTS Together BoundsFit OwnGlyph
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
