SPECIFICATION TraceSpec
CHECK_DEADLOCK TRUE
