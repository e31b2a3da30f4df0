SPECIFICATION FairSpec
CONSTANTS
  Readers = {"r1"}
  MaxOps = 3
  MaxRefresh = 3
  MaxReads = 2
  Nesting = TRUE
  Late = {}
  Bugs = {}
INVARIANTS NoWriteUnderReader NoFreeUnderReader PublishedInOrder BeforeFirst InWindow Converged AtMostTwoRefreshesOnDrop
PROPERTY Completes
CHECK_DEADLOCK FALSE
