SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS NV = 3
 ME = 5
 STEPS = 7
INVARIANTS Linked NoDangling Creation Ends WholeOnce Copies
