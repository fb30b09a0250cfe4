SPECIFICATION Spec
CONSTANTS
  M = 3
  Ks = {4, 8}
INVARIANTS InRange BySigns ByAngle Opposite Quarter Scaled Coarser Direction OtherK
PROPERTY Terminates
CHECK_DEADLOCK FALSE
