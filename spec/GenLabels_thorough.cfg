SPECIFICATION GSpec
CONSTANTS
  MaxOps = 4
  MaxLen = 2
  MaxSets = 3
INVARIANTS Conserved Emit
CHECK_DEADLOCK FALSE
