SPECIFICATION Spec
CONSTANTS N = 4
INVARIANT Correct
CHECK_DEADLOCK TRUE
