CONSTANT N = 2
SPECIFICATION Spec
INVARIANTS Sound Complete Detects
CHECK_DEADLOCK FALSE
