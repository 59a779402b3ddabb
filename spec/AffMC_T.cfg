SPECIFICATION Spec
CONSTANTS N = 5
INVARIANT Correct
CHECK_DEADLOCK TRUE
