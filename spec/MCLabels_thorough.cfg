SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2}
  MaxOps = 5
  MaxMerge = 3
  Regs = 2
  MaxLen = 2
INVARIANTS CatOk VecOk MergeOk
CHECK_DEADLOCK FALSE
