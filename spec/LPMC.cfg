SPECIFICATION Spec
CONSTANTS N = 2 LIMIT = 3
INVARIANT Correct
CHECK_DEADLOCK TRUE
