SPECIFICATION TraceSpec
CONSTANT Platform = "arduino"
CHECK_DEADLOCK TRUE
