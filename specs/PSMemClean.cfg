SPECIFICATION Spec
CONSTANTS
  MINREC = 3
  CAP = 11
  KEYS = {0, 1, 2}
  SIZES = {1, 2}
  VALS = {1, 2}
  CELLS = {0}
  Dirty = FALSE
INVARIANTS TypeOK NeverStuck KnownFound NothingElse SameHead AcceptRule
PROPERTIES Refines Redo
CHECK_DEADLOCK FALSE
