CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS Sound Complete Detects
CHECK_DEADLOCK FALSE
