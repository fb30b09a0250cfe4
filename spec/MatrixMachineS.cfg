SPECIFICATION Spec
CONSTANTS
  N = 4
  Vals = {0}
  Mode = "shuffle"
INVARIANTS FillAgrees LowAgrees LowLength Idempotent OnlyDiagonal ShuffleAgrees PermAlways Export
CHECK_DEADLOCK FALSE
