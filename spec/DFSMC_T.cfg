SPECIFICATION Spec
CONSTANTS N = 3 Loops = TRUE
INVARIANT Correct
CHECK_DEADLOCK TRUE
