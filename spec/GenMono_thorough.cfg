SPECIFICATION GSpec
CONSTANTS
  Keys = {1, 2}
  MaxOps = 5
INVARIANTS Shown Emit
CONSTRAINT First
CHECK_DEADLOCK FALSE
