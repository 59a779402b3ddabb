SPECIFICATION Spec
CONSTANTS
  N = 3
  Calls = 2
INVARIANTS Judged GraphStays
PROPERTY Comes
CHECK_DEADLOCK TRUE
