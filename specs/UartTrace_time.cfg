SPECIFICATION TraceSpec
CONSTANTS
 Ms = 1000
 Mode = "time"
CHECK_DEADLOCK TRUE
