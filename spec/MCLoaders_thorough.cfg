SPECIFICATION Spec
CONSTANTS
  Dims = {1, 2, 3}
  MaxFiles = 3
  MaxBytes = 24
  Cell = 4
INVARIANTS Loaded Refused Released
PROPERTY Ends
CHECK_DEADLOCK FALSE
