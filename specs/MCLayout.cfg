SPECIFICATION Spec
CONSTANTS
  Caps = {0, 5, 6, 7, 8, 13, 14, 15, 16, 22}
  Names <- MCNames
  Objects <- MCObjects
  Rest <- MCRest
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Faithful SameSize Prefix
CHECK_DEADLOCK FALSE
