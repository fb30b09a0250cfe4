SPECIFICATION Spec
CONSTANTS
  N = 3
  Depth = 3
  MaxOpen = 2
INVARIANTS Margins OffDiagonal Reach JudgedRight StyleBack
CHECK_DEADLOCK FALSE
