SPECIFICATION Spec
CONSTANTS
  Use = {"markov", "fullrank", "georank", "spatial", "spatialp", "spatiald", "lisa", "lisap", "rose", "homogeneity"}
  MaxObjs = 1
  Depth = 3
  Rs = {4, 9}
  OthersToo = FALSE
INVARIANTS AlwaysEnabled CacheIsClosure EpochsCount Export
PROPERTY OnlyOwn
CHECK_DEADLOCK FALSE
