SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Chunk = 2
  Threads = 2
  Inputs <- InputsDef
INVARIANT InOrder
PROPERTY Answers
CHECK_DEADLOCK FALSE
