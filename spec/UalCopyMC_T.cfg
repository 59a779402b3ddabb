SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS NV = 3
 ME = 4
 STEPS = 6
INVARIANTS Copies CopyAnyOrder NoLess
