SPECIFICATION Spec
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Want = {"built","dangling","unique","layer","count","addr","partition","home","unreachable"}
