SPECIFICATION Spec
CONSTANTS
  Ops <- AllOps
  Seeds = {"1", "2"}
  Depth = 24
  Echo = TRUE
INVARIANTS AllActions GeneratorIsPath SteadyRepeat Replayable IdsKept Export
PROPERTY SteadyQuiet
CHECK_DEADLOCK FALSE
