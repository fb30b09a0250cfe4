SPECIFICATION Spec
CONSTANTS
  N = 2
  Vals = {0, 1, 2}
  Mode = "fill"
INVARIANTS FillAgrees LowAgrees LowLength Idempotent OnlyDiagonal ShuffleAgrees PermAlways Export
CHECK_DEADLOCK FALSE
