SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  K = 3
  Subs = {1, 2}
  Indels = {1}
INVARIANTS Optimal SameAsRows Smooth Zero Symmetric Reversal AtMostHamming HammingAsOM Renamed TranMetric Export
PROPERTY Terminates
CHECK_DEADLOCK FALSE
