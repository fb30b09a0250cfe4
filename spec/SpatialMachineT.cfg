SPECIFICATION Spec
CONSTANTS
  N = 3
  TT = 3
  Vals <- V3
  Graphs <- G3I
  Cuts <- C1T
  LagCuts <- L1T
  Discrete = FALSE
INVARIANTS AddsUp Classified SomeMode Majority Counted Export
CHECK_DEADLOCK FALSE
