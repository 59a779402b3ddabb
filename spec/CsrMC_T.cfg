SPECIFICATION Spec
CONSTANTS K = 3
 M = 5
INVARIANT Correct
CHECK_DEADLOCK TRUE
