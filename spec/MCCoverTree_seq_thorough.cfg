SPECIFICATION Spec
CONSTANTS
  N = 3
  Span = 4
  Leafs = {0, 2}
  MinRes <- MinResDef
  SMax = 4
  Parallel = FALSE
  KMax = 3
INVARIANTS DoneMeansAll NeverStuck Structure Cover RelationAccepts RoutesHome SearchExact
CHECK_DEADLOCK FALSE
