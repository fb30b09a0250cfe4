SPECIFICATION Spec
CONSTANTS
  N = 5
  Vals = {1, 2}
INVARIANTS CountsExact PairsPartitioned TreeOrdered TauInRange TauSelf TauSymmetric TauReversed Export
PROPERTY Terminates
CHECK_DEADLOCK FALSE
