SPECIFICATION TraceSpec
INVARIANT TraceInv
CHECK_DEADLOCK TRUE
