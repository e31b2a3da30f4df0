SPECIFICATION Spec
CONSTANTS
  MaxSrc = 3
  MaxRows = 2
  MaxRe = 2
INVARIANTS Concatenated Complete Faithful NamesInvert
PROPERTY ReindexStep
CHECK_DEADLOCK FALSE
