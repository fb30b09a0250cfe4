SPECIFICATION Spec
CONSTANTS
  MM = 2
  RR = 1
  KK = 3
  Vals <- V5
INVARIANTS Accumulated Pearson ZeroIffAgree NonNegative KullbackIsLR Export
CHECK_DEADLOCK FALSE
