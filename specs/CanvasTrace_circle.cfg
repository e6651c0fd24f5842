SPECIFICATION TraceSpec
CONSTANT Mode = "circle"
CHECK_DEADLOCK TRUE
