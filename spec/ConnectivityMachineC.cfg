SPECIFICATION Spec
CONSTANTS
  N = 4
  Len0 = 3
  Mode = "contiguity"
INVARIANTS GroupsAgree GroupsFinest SearchAgrees Export
CHECK_DEADLOCK FALSE
