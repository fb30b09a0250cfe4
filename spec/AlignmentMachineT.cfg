SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  K = 2
  Subs = {0, 1, 3}
  Indels = {0, 1, 2}
INVARIANTS Optimal SameAsRows Smooth Zero Symmetric Reversal AtMostHamming HammingAsOM Renamed TranMetric Export
PROPERTY Terminates
CHECK_DEADLOCK FALSE
