SPECIFICATION TraceSpec
INVARIANT Inside
CHECK_DEADLOCK TRUE
