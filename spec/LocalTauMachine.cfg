SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals = {1, 2, 3}
  XS <- XS3
  R = 3
INVARIANTS Conserved LocalAgrees LocalAverages MeanIsTau NeighborAgrees NeighborRecombines WeightsAddUp NeighborIsSpatial HoodAgrees RegionalAgrees InRange Export
CHECK_DEADLOCK FALSE
