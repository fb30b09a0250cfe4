SPECIFICATION Spec
CONSTANTS
  C = 3
  R = 4
  V = 3
INVARIANTS Counters Multiples Folded FoldLowers SmallerIsMin Shares Valid
PROPERTY Step
CHECK_DEADLOCK FALSE
