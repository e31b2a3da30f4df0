SPECIFICATION PSpec
CONSTANTS
  N = 3
  Span = 3
  Leafs = {0, 1}
  MinRes <- MinResDef
  SMax = 4
  MayFail = FALSE
INVARIANTS SameTree
CHECK_DEADLOCK FALSE
