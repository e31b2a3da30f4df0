SPECIFICATION Spec
CONSTANTS
  Windows = {0, 1, 2, 4}
  MaxOps = 5
INVARIANTS Sum Bounded
CHECK_DEADLOCK FALSE
