SPECIFICATION Spec
CONSTANTS
  N = 4
  Q = 1
INVARIANTS Stochastic DeterminantsAgree TraceIsUniformB1 TraceIsMeanPrais ZeroOnlyForIdentity DInRange UnitRoot NoneOutside CirclesAgree Export
PROPERTY Monotone
CHECK_DEADLOCK FALSE
