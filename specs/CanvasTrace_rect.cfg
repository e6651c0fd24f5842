SPECIFICATION TraceSpec
CONSTANT Mode = "rect"
CHECK_DEADLOCK TRUE
