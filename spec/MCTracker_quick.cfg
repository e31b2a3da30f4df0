SPECIFICATION Spec
CONSTANTS
  Windows = {0, 1, 2, 3}
  MaxOps = 4
INVARIANTS Sum Bounded
CHECK_DEADLOCK FALSE
