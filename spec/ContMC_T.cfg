SPECIFICATION Spec
CONSTANTS
  N = 2
INVARIANTS Judged Storage
PROPERTY Ends_
CHECK_DEADLOCK TRUE
