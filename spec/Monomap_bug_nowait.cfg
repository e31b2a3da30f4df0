SPECIFICATION Spec
CONSTANTS
  Readers = {"r1", "r2"}
  MaxOps = 2
  MaxRefresh = 3
  MaxReads = 2
  Nesting = TRUE
  Late = {"r2"}
  Bugs = {"nowait"}
INVARIANTS NoWriteUnderReader NoFreeUnderReader PublishedInOrder BeforeFirst InWindow Converged AtMostTwoRefreshesOnDrop

CHECK_DEADLOCK FALSE
