SPECIFICATION Spec
CONSTANTS
  Conns = {"c1", "c2"}
  Reqs = 3
  Names = {"a","b"}
  Wins = {0,1}
  Catch = TRUE
INVARIANTS Shared Own Once Unharmed
CHECK_DEADLOCK FALSE
