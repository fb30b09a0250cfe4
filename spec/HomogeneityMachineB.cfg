SPECIFICATION Spec
CONSTANTS
  MM = 3
  RR = 2
  KK = 2
  Vals <- V1
INVARIANTS Accumulated Pearson ZeroIffAgree NonNegative KullbackIsLR Export
CHECK_DEADLOCK FALSE
