SPECIFICATION TraceSpec
CONSTANT Mode = "bounds"
INVARIANT Within
CHECK_DEADLOCK TRUE
