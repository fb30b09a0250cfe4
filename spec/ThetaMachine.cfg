SPECIFICATION Spec
CONSTANTS
  N = 3
  Firsts <- F3
  Vals = {1, 2, 3}
INVARIANTS RanksAddUp InRange AllOwn AllOne Blocks AtMostMaximum Export
PROPERTY MergingLowers
CHECK_DEADLOCK FALSE
