SPECIFICATION Spec
CONSTANTS N = 3 W = {0, 1, 3}
INVARIANT Correct
CHECK_DEADLOCK TRUE
