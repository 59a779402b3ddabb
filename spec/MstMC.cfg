SPECIFICATION Spec
CONSTANTS N = 3 W <- W3
INVARIANT Correct
CHECK_DEADLOCK TRUE
