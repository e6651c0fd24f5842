SPECIFICATION TraceSpec
CONSTANTS
 Ms = 1000
 Mode = "bytes"
CHECK_DEADLOCK TRUE
