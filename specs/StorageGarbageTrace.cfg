SPECIFICATION TraceSpec
CONSTANT KEYLEN = 4
INVARIANT TraceInv
CHECK_DEADLOCK TRUE
