SPECIFICATION TraceSpec
CONSTANT Mode = "ints"
INVARIANT Within
CHECK_DEADLOCK TRUE
