SPECIFICATION Spec
CONSTANTS
  K = 3
  N = 2
  P = 4
  Fills = {FALSE, TRUE}
INVARIANTS CountsExact TotalMoves FoldAgrees DeclarativeAgrees RowsStochastic FillOnlyEmpty Export
PROPERTY Monotone
CHECK_DEADLOCK FALSE
