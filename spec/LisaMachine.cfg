SPECIFICATION Spec
CONSTANTS
  N = 4
  TT = 2
  Vals = {1, 2}
  Graphs <- GR
INVARIANTS OneQuadrant Decoded AnyScale BothSides Renumbered TypesTell Codes Total IndependentMoves Export
CHECK_DEADLOCK FALSE
