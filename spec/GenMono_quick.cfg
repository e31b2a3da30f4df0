SPECIFICATION GSpec
CONSTANTS
  Keys = {1, 2}
  MaxOps = 4
INVARIANTS Shown Emit
CONSTRAINT First
CHECK_DEADLOCK FALSE
