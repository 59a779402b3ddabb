SPECIFICATION Spec
CONSTANTS N = 3 MaxLen = 5 Vals = {0}
INVARIANTS BuiltOk WalkOk EndOk
CHECK_DEADLOCK FALSE
