SPECIFICATION Spec
CONSTANTS N = 3 W = {0, 2}
INVARIANT Correct
CHECK_DEADLOCK TRUE
