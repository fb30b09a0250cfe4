SPECIFICATION Spec
CONSTANTS
  Use = {"markov", "fullrank", "georank", "spatial", "spatialp", "spatiald", "lisa", "lisap", "rose", "homogeneity"}
  MaxObjs = 3
  Depth = 14
  Rs = {4, 9}
  OthersToo = TRUE
INVARIANTS AlwaysEnabled CacheIsClosure EpochsCount Export
PROPERTY OnlyOwn
CHECK_DEADLOCK FALSE
