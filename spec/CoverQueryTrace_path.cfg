SPECIFICATION Spec
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Mode = "path"
