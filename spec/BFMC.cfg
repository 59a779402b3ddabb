SPECIFICATION Spec
CONSTANTS N = 2 W <- W2
INVARIANT Correct
CHECK_DEADLOCK TRUE
