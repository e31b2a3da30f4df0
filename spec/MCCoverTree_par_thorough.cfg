SPECIFICATION Spec
CONSTANTS
  N = 4
  Span = 3
  Leafs = {1}
  MinRes <- MinResDef
  SMax = 4
  Parallel = TRUE
  KMax <- NoQueries
INVARIANTS DoneMeansAll NeverStuck Structure Cover RelationAccepts RoutesHome
CHECK_DEADLOCK FALSE
