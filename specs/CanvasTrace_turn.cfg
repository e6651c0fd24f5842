SPECIFICATION TraceSpec
CONSTANT Mode = "turn"
CHECK_DEADLOCK TRUE
