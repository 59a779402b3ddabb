SPECIFICATION Spec
CONSTANTS
  MaxV = 4
  MaxD = 2
  NIt = 2
INVARIANTS Exact EqualOK EndOK
CHECK_DEADLOCK FALSE
