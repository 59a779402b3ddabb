SPECIFICATION Spec
CONSTANTS
  MaxV = 5
  MaxD = 3
  NIt = 2
INVARIANTS Exact EqualOK EndOK
CHECK_DEADLOCK FALSE
