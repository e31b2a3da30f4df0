SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  MaxLen = 6
  Chunks = {1, 2, 3}
  Workers = 3
INVARIANTS Cut Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
