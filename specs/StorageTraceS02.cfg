SPECIFICATION TraceSpec
CONSTANTS
  HDR = 6
  MAXREC = 65535
  KEYLEN = 4
  CheckAccept = FALSE
  CheckTwin = TRUE
INVARIANT TraceInv
CHECK_DEADLOCK TRUE
