SPECIFICATION Spec
CONSTANTS
  C = 4
  R = 5
  V = 3
INVARIANTS Counters Multiples Folded FoldLowers SmallerIsMin Shares Valid
PROPERTY Step
CHECK_DEADLOCK FALSE
