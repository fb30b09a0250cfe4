SPECIFICATION Spec
CONSTANTS
  N = 4
  Len0 = 4
  Mode = "graph"
INVARIANTS GroupsAgree GroupsFinest SearchAgrees Export
CHECK_DEADLOCK FALSE
