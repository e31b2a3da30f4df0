SPECIFICATION Spec
CONSTANTS
  N = 3
  Span = 3
  Leafs = {0}
  MinRes <- MinResDef
  SMax = 4
  Parallel = FALSE
  KMax = 2
INVARIANTS DoneMeansAll NeverStuck Structure Cover RelationAccepts RoutesHome SearchExact
CHECK_DEADLOCK FALSE
