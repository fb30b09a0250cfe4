SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals = {0, 1}
  R = 2
  Calls = 2
INVARIANTS AllCounted HalvesKept Mirrored TwoSidedRange Export
PROPERTY Forget
CHECK_DEADLOCK FALSE
