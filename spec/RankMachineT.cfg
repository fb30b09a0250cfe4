SPECIFICATION Spec
CONSTANTS
  N = 3
  P = 3
  Vals = {1, 2}
  First = TRUE
INVARIANTS RanksArePermutations LargestFirst TiesInFixedOrder Balanced SameStays Agrees Export
CHECK_DEADLOCK FALSE
