SPECIFICATION Spec
CONSTANT Want = "kl"
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
