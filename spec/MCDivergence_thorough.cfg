SPECIFICATION Spec
CONSTANTS
  MaxPrior = 6
  MaxKids = 3
  MaxObs = 6
INVARIANTS Definition Positive Nothing Certain Away Surprise Back
CHECK_DEADLOCK FALSE
