SPECIFICATION Spec
CONSTANTS
  N = 2
  Q = 8
INVARIANTS Stochastic DeterminantsAgree TraceIsUniformB1 TraceIsMeanPrais ZeroOnlyForIdentity DInRange UnitRoot NoneOutside CirclesAgree Export
PROPERTY Monotone
CHECK_DEADLOCK FALSE
