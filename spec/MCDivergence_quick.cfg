SPECIFICATION Spec
CONSTANTS
  MaxPrior = 4
  MaxKids = 2
  MaxObs = 4
INVARIANTS Definition Positive Nothing Certain Away Surprise Back
CHECK_DEADLOCK FALSE
