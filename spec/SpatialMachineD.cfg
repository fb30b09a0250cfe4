SPECIFICATION Spec
CONSTANTS
  N = 3
  TT = 2
  Vals <- V3
  Graphs <- G3
  Cuts <- NoCut
  LagCuts <- NoCut
  Discrete = TRUE
INVARIANTS AddsUp Classified SomeMode Majority Counted Export
CHECK_DEADLOCK FALSE
