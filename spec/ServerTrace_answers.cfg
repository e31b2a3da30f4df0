SPECIFICATION Spec
CONSTANT Want = "answers"
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
