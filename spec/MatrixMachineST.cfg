SPECIFICATION Spec
CONSTANTS
  N = 6
  Vals = {0}
  Mode = "shuffle"
INVARIANTS FillAgrees LowAgrees LowLength Idempotent OnlyDiagonal ShuffleAgrees PermAlways Export
CHECK_DEADLOCK FALSE
