SPECIFICATION Spec
CONSTANTS
  K = 4
  Rows <- Rows4
INVARIANTS SeenReachable ReachAgrees ReachDeclarative ClassesPartition CensoredStochastic Stationary Kac PassageAccepted Export
CHECK_DEADLOCK FALSE
