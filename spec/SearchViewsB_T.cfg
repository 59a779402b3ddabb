SPECIFICATION Spec
CONSTANTS N = 3 M = 4 Kinds = {"bv", "be"}
INVARIANT Correct
CHECK_DEADLOCK TRUE
