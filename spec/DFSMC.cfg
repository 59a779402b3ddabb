SPECIFICATION Spec
CONSTANTS N = 3 Loops = FALSE
INVARIANT Correct
CHECK_DEADLOCK TRUE
