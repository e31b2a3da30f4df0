SPECIFICATION Spec
CONSTANTS
  Readers = {"r1", "r2", "r3"}
  MaxOps = 1
  MaxRefresh = 3
  MaxReads = 2
  Nesting = FALSE
  Late = {"r2"}
  Bugs = {}
INVARIANTS NoWriteUnderReader NoFreeUnderReader PublishedInOrder BeforeFirst InWindow Converged AtMostTwoRefreshesOnDrop

CHECK_DEADLOCK FALSE
