SPECIFICATION FairSpec
CONSTANTS
  N = 3
  Span = 3
  Leafs = {0, 1}
  MinRes <- MinResDef
  SMax = 4
  Parallel = TRUE
  KMax <- NoQueries
INVARIANTS DoneMeansAll NeverStuck Structure Cover RelationAccepts RoutesHome
PROPERTY Finishes
CHECK_DEADLOCK FALSE
