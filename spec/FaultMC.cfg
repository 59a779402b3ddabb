SPECIFICATION Spec
CONSTANTS
  N = 2
  Calls = 2
INVARIANTS Judged GraphStays
PROPERTY Comes
CHECK_DEADLOCK TRUE
