SPECIFICATION Spec
INVARIANTS Shows Owners OnePlace
CONSTANTS NV = 3 MaxE = 4 MaxT = 3
CHECK_DEADLOCK FALSE
