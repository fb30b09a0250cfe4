SPECIFICATION Spec
CONSTANTS
  N = 2
  Depth = 2
  MaxOpen = 2
INVARIANTS Margins OffDiagonal Reach JudgedRight StyleBack
CHECK_DEADLOCK FALSE
