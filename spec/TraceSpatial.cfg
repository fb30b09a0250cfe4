INIT TInit
NEXT TraceNext
CHECK_DEADLOCK FALSE
