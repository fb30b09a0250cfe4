SPECIFICATION Spec
CONSTANTS
  Ops = {"spatial_perm", "shuffle", "lisa", "spatial_discrete", "theta_perm", "markov"}
  Seeds = {"1", "2"}
  Depth = 8
  Echo = FALSE
INVARIANTS AllActions GeneratorIsPath SteadyRepeat Replayable IdsKept
PROPERTY SteadyQuiet
CHECK_DEADLOCK FALSE
