SPECIFICATION GSpec
CONSTANTS
  Names = {"", "a"}
  Wins = {0, 1}
  Points = {1, 2}
  MaxOps = 4
INVARIANTS Once Bounded Emit
CHECK_DEADLOCK FALSE
