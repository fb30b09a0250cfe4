SPECIFICATION Spec
CONSTANTS
  K = 2
  Rows <- Rows2
INVARIANTS SeenReachable ReachAgrees ReachDeclarative ClassesPartition CensoredStochastic Stationary Kac PassageAccepted Export
CHECK_DEADLOCK FALSE
