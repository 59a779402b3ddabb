SPECIFICATION Spec
CONSTANTS
  K = 2
  M = 2
  Assoc = TRUE
INVARIANTS Judged Told
PROPERTY Ends_
CHECK_DEADLOCK TRUE
