SPECIFICATION Spec
CONSTANTS
  Conns = {"c1", "c2"}
  Reqs = 2
  Names = {"a"}
  Wins = {1}
  Catch = FALSE
INVARIANTS Shared Own Once Unharmed
CHECK_DEADLOCK FALSE
