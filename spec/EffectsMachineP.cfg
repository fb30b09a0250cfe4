SPECIFICATION Spec
CONSTANTS
  Ops <- AllOps
  Seeds = {"1"}
  Depth = 6
  Echo = TRUE
INVARIANTS AllActions GeneratorIsPath SteadyRepeat Replayable IdsKept Export
PROPERTY SteadyQuiet
CHECK_DEADLOCK FALSE
