SPECIFICATION Spec
CONSTANTS
  N = 2
  P = 4
  Vals = {1, 2}
  First = TRUE
INVARIANTS RanksArePermutations LargestFirst TiesInFixedOrder Balanced SameStays Agrees Export
CHECK_DEADLOCK FALSE
