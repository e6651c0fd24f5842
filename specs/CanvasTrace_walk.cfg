SPECIFICATION TraceSpec
CONSTANT Mode = "walk"
CHECK_DEADLOCK TRUE
