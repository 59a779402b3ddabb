SPECIFICATION Spec
CONSTANTS K = 3
 MaxLoads = 3
 Kinds = {"idx", "map"}
 Ords = {"seq", "rev", "set"}
INVARIANT Correct
CHECK_DEADLOCK TRUE
