SPECIFICATION Spec
CONSTANTS
  Dims = {1, 2, 3}
  MaxFiles = 3
  MaxBytes = 14
  Cell = 2
INVARIANTS Loaded Refused Released
PROPERTY Ends
CHECK_DEADLOCK FALSE
