SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  MaxLen = 5
  Chunks = {1, 2, 3}
  Workers = 2
INVARIANTS Cut Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
