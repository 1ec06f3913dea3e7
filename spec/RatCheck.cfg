CONSTANTS N = 7  D = 5
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
