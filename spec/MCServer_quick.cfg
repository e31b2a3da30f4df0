SPECIFICATION Spec
CONSTANTS
  Conns = {"c1", "c2"}
  Reqs = 3
  Names = {"a"}
  Wins = {1}
  Catch = TRUE
INVARIANTS Shared Own Once Unharmed
CHECK_DEADLOCK FALSE
