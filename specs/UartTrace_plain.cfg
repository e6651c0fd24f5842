SPECIFICATION TraceSpec
CONSTANTS
 Ms = 1000
 Mode = "plain"
CHECK_DEADLOCK TRUE
