SPECIFICATION Spec
CONSTANTS N = 4 W <- W1
INVARIANT Correct
CHECK_DEADLOCK TRUE
