SPECIFICATION TraceSpec
CONSTANT Jobs = 16
CHECK_DEADLOCK FALSE
