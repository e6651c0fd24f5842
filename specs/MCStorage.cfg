SPECIFICATION Spec
CONSTANTS
  HDR = 6
  MAXREC = 65535
  KEYLEN = 4
  Caps = {0, 5, 6, 7, 13, 14, 16, 23}
  Keys <- MCKeys
  Sizes = {1, 2}
  Vals = {1, 2}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS UniqueNames Within UsedIsSum
PROPERTIES OnlyThat ReadBack ReopenKeeps RefusedKeeps NeverLost
CHECK_DEADLOCK FALSE
