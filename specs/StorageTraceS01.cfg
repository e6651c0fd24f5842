SPECIFICATION TraceSpec
CONSTANTS
  HDR = 6
  MAXREC = 65535
  KEYLEN = 4
  CheckAccept = FALSE
  CheckTwin = FALSE
INVARIANT TraceInv
CHECK_DEADLOCK TRUE
