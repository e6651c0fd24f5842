SPECIFICATION TraceSpec
CONSTANT Mode = "line"
CHECK_DEADLOCK TRUE
