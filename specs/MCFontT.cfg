SPECIFICATION Spec
CONSTANTS MaxLen = 3
Codes <- CodesT
VIEW View
INVARIANTS Together BoundsFit OwnGlyph
CHECK_DEADLOCK FALSE
