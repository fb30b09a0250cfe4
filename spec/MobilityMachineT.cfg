SPECIFICATION Spec
CONSTANTS
  N = 3
  Q = 4
INVARIANTS Stochastic DeterminantsAgree TraceIsUniformB1 TraceIsMeanPrais ZeroOnlyForIdentity DInRange UnitRoot NoneOutside CirclesAgree Export
PROPERTY Monotone
CHECK_DEADLOCK FALSE
