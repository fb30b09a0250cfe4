SPECIFICATION Spec
CONSTANTS
  N = 3
  Symbols = {1, 2, 12}
  MaxLen = 2
INVARIANTS KeysDistinct AllPairs ResultSymmetric
PROPERTY Terminates
CHECK_DEADLOCK FALSE
