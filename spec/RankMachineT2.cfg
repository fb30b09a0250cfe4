SPECIFICATION Spec
CONSTANTS
  N = 4
  P = 2
  Vals = {1, 2, 3}
  First = FALSE
INVARIANTS RanksArePermutations LargestFirst TiesInFixedOrder Balanced SameStays Agrees Export
CHECK_DEADLOCK FALSE
