SPECIFICATION Spec
CONSTANTS
  MM = 2
  RR = 2
  KK = 2
  Vals <- V5
INVARIANTS Accumulated Pearson ZeroIffAgree NonNegative KullbackIsLR Export
CHECK_DEADLOCK FALSE
