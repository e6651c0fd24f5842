SPECIFICATION TraceSpec
CONSTANT Mode = "holding"
CHECK_DEADLOCK TRUE
