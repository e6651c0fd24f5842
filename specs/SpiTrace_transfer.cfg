SPECIFICATION TraceSpec
CONSTANT Mode = "transfer"
CHECK_DEADLOCK TRUE
