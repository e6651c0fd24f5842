SPECIFICATION Spec
CONSTANTS
  Caps = {0, 1, 2, 3, 4, 5, 6, 8}
  Widths <- MCWidths
  Fills = {32, 48}
  Precs <- MCPrecs
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Within
PROPERTIES AppendOnly WholeNumbers HexPairs WidthKept
CHECK_DEADLOCK FALSE
