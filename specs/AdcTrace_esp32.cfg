SPECIFICATION TraceSpec
CONSTANT Platform = "esp32"
CHECK_DEADLOCK TRUE
