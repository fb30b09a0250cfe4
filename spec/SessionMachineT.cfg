SPECIFICATION Spec
CONSTANTS
  Use = {"rose", "lisap", "lisa"}
  MaxObjs = 1
  Depth = 4
  Rs = {4, 9}
  OthersToo = FALSE
INVARIANTS AlwaysEnabled CacheIsClosure EpochsCount Export
PROPERTY OnlyOwn
CHECK_DEADLOCK FALSE
