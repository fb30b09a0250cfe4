SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals = {0, 1, 3}
  Mode = "fill"
INVARIANTS FillAgrees LowAgrees LowLength Idempotent OnlyDiagonal ShuffleAgrees PermAlways Export
CHECK_DEADLOCK FALSE
