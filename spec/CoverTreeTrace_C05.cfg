SPECIFICATION Spec
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Want = {"descend","ball","sep","radius","root"}
