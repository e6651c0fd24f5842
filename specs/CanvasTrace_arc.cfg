SPECIFICATION TraceSpec
CONSTANT Mode = "arc"
CHECK_DEADLOCK TRUE
