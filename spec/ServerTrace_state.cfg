SPECIFICATION Spec
CONSTANT Want = "state"
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
