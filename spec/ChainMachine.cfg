SPECIFICATION Spec
CONSTANTS
  K = 3
  Rows <- Rows3
INVARIANTS SeenReachable ReachAgrees ReachDeclarative ClassesPartition CensoredStochastic Stationary Kac PassageAccepted Export
CHECK_DEADLOCK FALSE
