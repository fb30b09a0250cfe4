SPECIFICATION Spec
CONSTANTS
  N = 3
  TT = 2
  Vals <- V3
  Graphs <- G3I
  Cuts <- C1
  LagCuts <- L1
  Discrete = FALSE
INVARIANTS AddsUp Classified SomeMode Majority Counted Export
CHECK_DEADLOCK FALSE
