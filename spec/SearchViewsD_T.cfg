SPECIFICATION Spec
CONSTANTS N = 3 M = 4 Kinds = {"dv", "de"}
INVARIANT Correct
CHECK_DEADLOCK TRUE
