SPECIFICATION Spec
CONSTANTS
  MM = 3
  RR = 1
  KK = 3
  Vals <- V2
INVARIANTS Accumulated Pearson ZeroIffAgree NonNegative KullbackIsLR Export
CHECK_DEADLOCK FALSE
