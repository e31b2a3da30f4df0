SPECIFICATION Spec
CONSTANTS
  N = 3
  Span = 3
  Leafs = {0, 1}
  MinRes <- MinResDef
  SMax = 4
  MayFail = TRUE
INVARIANTS Reproducible FailureReported
PROPERTIES Returns Rests
CHECK_DEADLOCK FALSE
