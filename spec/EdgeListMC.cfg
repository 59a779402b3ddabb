SPECIFICATION Spec
CONSTANTS N = 3 MaxLen = 3 Vals = {0, 1}
INVARIANTS BuiltOk WalkOk EndOk
PROPERTY Ends
CHECK_DEADLOCK FALSE
