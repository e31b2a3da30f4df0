SPECIFICATION Spec
CONSTANTS
  MaxSrc = 3
  MaxRows = 2
  MaxRe = 1
INVARIANTS Concatenated Complete Faithful NamesInvert
PROPERTY ReindexStep
CHECK_DEADLOCK FALSE
