SPECIFICATION Spec
CONSTANTS
  N = 4
  Graphs <- G4
  Second = TRUE
INVARIANTS Agrees Finest CoreInside SpillSound
CHECK_DEADLOCK FALSE
