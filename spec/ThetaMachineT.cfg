SPECIFICATION Spec
CONSTANTS
  N = 4
  Firsts <- F4
  Vals = {1, 2, 3, 4}
INVARIANTS RanksAddUp InRange AllOwn AllOne Blocks AtMostMaximum Export
PROPERTY MergingLowers
CHECK_DEADLOCK FALSE
