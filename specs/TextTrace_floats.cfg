SPECIFICATION TraceSpec
CONSTANT Mode = "floats"
INVARIANT Within
CHECK_DEADLOCK TRUE
