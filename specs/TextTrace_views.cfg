SPECIFICATION TraceSpec
CONSTANT Mode = "views"
INVARIANT Within
CHECK_DEADLOCK TRUE
