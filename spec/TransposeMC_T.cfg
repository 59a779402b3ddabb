SPECIFICATION Spec
INVARIANTS Shows Owners OnePlace
CONSTANTS NV = 3 MaxE = 5 MaxT = 3
CHECK_DEADLOCK FALSE
