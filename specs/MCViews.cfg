SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 2, 3, 4, 5}
  Counts = {0, 1, 2, 3, 4, 5, 6, 1000000000}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Inside
PROPERTIES Exactly Narrows
CHECK_DEADLOCK FALSE
