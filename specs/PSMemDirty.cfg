SPECIFICATION Spec
CONSTANTS
  MINREC = 3
  CAP = 8
  KEYS = {0, 1}
  SIZES = {1, 2}
  VALS = {1, 4}
  CELLS = {0, 1, 4, 5}
  Dirty = TRUE
INVARIANTS TypeOK NeverStuck KnownFound
CHECK_DEADLOCK FALSE
