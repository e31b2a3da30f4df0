SPECIFICATION GSpec
CONSTANTS
  Windows = {0, 1, 2}
  MaxOps = 4
INVARIANTS Sum Bounded Emit
CONSTRAINT FirstOnly
CHECK_DEADLOCK FALSE
