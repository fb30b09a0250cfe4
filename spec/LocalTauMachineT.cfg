SPECIFICATION Spec
CONSTANTS
  N = 4
  Vals = {1, 2}
  XS <- XS4
  R = 2
INVARIANTS Conserved LocalAgrees LocalAverages MeanIsTau NeighborAgrees NeighborRecombines WeightsAddUp NeighborIsSpatial HoodAgrees RegionalAgrees InRange Export
CHECK_DEADLOCK FALSE
