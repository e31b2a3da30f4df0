SPECIFICATION GSpec
CONSTANTS
  MaxOps = 3
  MaxLen = 2
  MaxSets = 2
INVARIANTS Conserved Emit
CHECK_DEADLOCK FALSE
