SPECIFICATION Spec
CONSTANTS
  Nodes = 5
  MaxOwn = 1
  Scales = {0, 1, 2, 3}
INVARIANTS Dimensions OneNode Counts
CHECK_DEADLOCK FALSE
