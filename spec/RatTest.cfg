INIT Init
NEXT Next
INVARIANTS Field Order Special Transcendental Known
CHECK_DEADLOCK FALSE
