SPECIFICATION Spec
CONSTANTS K = 3
 M = 4
INVARIANT Correct
CHECK_DEADLOCK TRUE
