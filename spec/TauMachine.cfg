SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals = {1, 2, 3}
INVARIANTS CountsExact PairsPartitioned TreeOrdered TauInRange TauSelf TauSymmetric TauReversed Export
PROPERTY Terminates
CHECK_DEADLOCK FALSE
