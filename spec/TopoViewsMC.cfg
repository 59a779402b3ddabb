SPECIFICATION Spec
CONSTANTS N = 3 M = 3
INVARIANT Correct
CHECK_DEADLOCK TRUE
