SPECIFICATION TraceSpec
CONSTANT Mode = "clip"
CHECK_DEADLOCK TRUE
