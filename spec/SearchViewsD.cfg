SPECIFICATION Spec
CONSTANTS N = 3 M = 2 Kinds = {"dv", "de"}
INVARIANT Correct
CHECK_DEADLOCK TRUE
