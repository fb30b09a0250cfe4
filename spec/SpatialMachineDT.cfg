SPECIFICATION Spec
CONSTANTS
  N = 4
  TT = 2
  Vals <- V3
  Graphs <- G4
  Cuts <- NoCut
  LagCuts <- NoCut
  Discrete = TRUE
INVARIANTS AddsUp Classified SomeMode Majority Counted Export
CHECK_DEADLOCK FALSE
