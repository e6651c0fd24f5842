SPECIFICATION TraceSpec
CONSTANT Platform = "esp32-old"
CHECK_DEADLOCK TRUE
