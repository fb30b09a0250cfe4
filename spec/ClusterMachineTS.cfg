SPECIFICATION Spec
CONSTANTS
  N = 5
  Graphs <- G5
  Second = TRUE
INVARIANTS Agrees Finest CoreInside SpillSound
CHECK_DEADLOCK FALSE
